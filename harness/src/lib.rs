#![allow(dead_code)]
mod all;
