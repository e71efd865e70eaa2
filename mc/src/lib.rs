#![allow(dead_code)]
pub mod access;
pub mod alpha;
pub mod checks;
pub mod explore;
pub mod extra;
pub mod model;
pub mod oracle;
pub mod report;
pub mod rt;
pub mod ts;
pub mod view;
pub mod world;
