#![allow(dead_code, unused, non_snake_case)]
mod models;
mod wit;
mod roots;
