pub mod tape;
pub mod runner;
pub mod model;
pub mod gen;
pub mod render;
pub mod reflex;
pub mod refparse;
pub mod refprint;
pub mod damage;
pub mod giant;
