//! Properties of the parts that can be driven directly through their API.
pub mod auth;
pub mod cli;
pub mod config;
pub mod gen_topic;
pub mod pending;
pub mod proxy;
pub mod retain;
pub mod route;
pub mod scram;
pub mod sha;

use crate::runner::Property;

pub fn properties() -> Vec<Property> {
    vec![
        route::property(),
        retain::property(),
        pending::property(),
        auth::file_property(),
        auth::check_property(),
        scram::exchange_property(),
        scram::tamper_property(),
        proxy::valid_property(),
        proxy::reject_property(),
        config::property(),
        cli::property(),
    ]
}
