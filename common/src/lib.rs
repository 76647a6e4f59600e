pub mod btc;
pub mod files;
pub mod http;
pub mod index;
pub mod model;
pub mod node;
pub mod plan;
pub mod proc;
pub mod report;
pub mod shape;
pub mod texts;
pub mod ctl;
