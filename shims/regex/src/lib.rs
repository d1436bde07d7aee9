pub use regex1::*;
