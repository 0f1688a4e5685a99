pub mod lay;
