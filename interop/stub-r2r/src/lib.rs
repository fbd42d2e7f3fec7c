//! Stand-in of r2r: the message structs exactly as r2r_msg_gen generates them from the ROS 2 interface
//! definitions (the real crate needs an installed ROS 2).
macro_rules! msg {
    ($($(#[$d:meta])* $n:ident { $($f:ident : $t:ty),* $(,)? })*) => {
        $(#[derive(Clone, Debug, PartialEq, Default)] pub struct $n { $(pub $f: $t),* })*
    };
}
pub mod builtin_interfaces { pub mod msg { msg! { Time { sec: i32, nanosec: u32 } } } }
pub mod std_msgs { pub mod msg { msg! { Header { stamp: crate::builtin_interfaces::msg::Time, frame_id: std::string::String } } } }
pub mod sensor_msgs {
    pub mod msg {
        msg! {
            PointField { name: std::string::String, offset: u32, datatype: u8, count: u32 }
            PointCloud2 {
                header: crate::std_msgs::msg::Header, height: u32, width: u32, fields: Vec<PointField>, is_bigendian: bool,
                point_step: u32, row_step: u32, data: Vec<u8>, is_dense: bool,
            }
        }
    }
}
