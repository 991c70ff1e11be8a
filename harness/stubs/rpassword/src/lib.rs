//! Stand-in for rpassword: reads from stdin instead of the terminal.
use std::io;

pub fn read_password() -> io::Result<String> {
    let mut s = String::new();
    // (unbuffered, so that two calls share stdin)
    io::stdin().read_line(&mut s)?;
    if s.ends_with('\n') {
        s.pop();
        if s.ends_with('\r') {
            s.pop();
        }
    }
    Ok(s)
}

pub fn prompt_password(prompt: impl ToString) -> io::Result<String> {
    eprint!("{}", prompt.to_string());
    read_password()
}
