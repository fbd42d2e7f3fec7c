//! pcmon: runs the real conversions of ros_pointcloud2 under monitors and reference models.
pub mod driver;
pub mod gen;
pub mod model;
pub mod mon;
pub mod props;
pub mod rng;
pub mod script;
#[macro_use]
pub mod subjects;
pub mod wide70;
