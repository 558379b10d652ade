pub mod analyzed;
