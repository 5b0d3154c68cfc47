#![allow(dead_code, unused, non_snake_case)]
#[path = "../../harness/src/models.rs"]
mod models;
mod wit;
mod roots;
