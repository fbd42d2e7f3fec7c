//! A point of 70 members with long names that differ in their last letters, in case or by a suffix only. Generated once.
use ros_pointcloud2::prelude::*;

#[derive(Clone, Copy, Default, PointConvertible)]
#[repr(C)]
pub struct Wide70 {
    #[rpcl2(rename("c0"))]
    pub m00: u8,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_01"))]
    pub m01: i32,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/02"))]
    pub m02: f64,
    #[rpcl2(rename("c03_xxx"))]
    pub m03: f64,
    #[rpcl2(rename("4"))]
    pub m04: i16,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_01_"))]
    pub m05: u32,
    #[rpcl2(rename("C0"))]
    pub m06: u8,
    #[rpcl2(rename("c7"))]
    pub m07: i16,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_08"))]
    pub m08: u16,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/09"))]
    pub m09: f32,
    #[rpcl2(rename("c10_xxxxxxxxxx"))]
    pub m10: f32,
    #[rpcl2(rename("11"))]
    pub m11: u16,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_08_"))]
    pub m12: f32,
    #[rpcl2(rename("C7"))]
    pub m13: u8,
    #[rpcl2(rename("c14"))]
    pub m14: u32,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_15"))]
    pub m15: i32,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/16"))]
    pub m16: f32,
    #[rpcl2(rename("c17_xxxxxxxxxxxxxxxxx"))]
    pub m17: f64,
    #[rpcl2(rename("18"))]
    pub m18: u8,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_15_"))]
    pub m19: u8,
    #[rpcl2(rename("C14"))]
    pub m20: i8,
    #[rpcl2(rename("c21"))]
    pub m21: f64,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_22"))]
    pub m22: u32,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/23"))]
    pub m23: i32,
    #[rpcl2(rename("c24_xxxxxxxxxxxxxxxxxxxxxxxx"))]
    pub m24: i16,
    #[rpcl2(rename("25"))]
    pub m25: i8,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_22_"))]
    pub m26: i32,
    #[rpcl2(rename("C21"))]
    pub m27: f64,
    #[rpcl2(rename("c28"))]
    pub m28: u8,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_29"))]
    pub m29: f64,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/30"))]
    pub m30: u8,
    #[rpcl2(rename("c31_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"))]
    pub m31: i16,
    #[rpcl2(rename("32"))]
    pub m32: u32,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_29_"))]
    pub m33: u16,
    #[rpcl2(rename("C28"))]
    pub m34: u8,
    #[rpcl2(rename("c35"))]
    pub m35: i8,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_36"))]
    pub m36: f32,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/37"))]
    pub m37: i8,
    #[rpcl2(rename("c38_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"))]
    pub m38: i32,
    #[rpcl2(rename("39"))]
    pub m39: i16,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_36_"))]
    pub m40: u32,
    #[rpcl2(rename("C35"))]
    pub m41: u8,
    #[rpcl2(rename("c42"))]
    pub m42: u16,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_43"))]
    pub m43: i16,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/44"))]
    pub m44: u8,
    #[rpcl2(rename("c45_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"))]
    pub m45: i32,
    #[rpcl2(rename("46"))]
    pub m46: f32,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_43_"))]
    pub m47: u8,
    #[rpcl2(rename("C42"))]
    pub m48: i16,
    #[rpcl2(rename("c49"))]
    pub m49: f64,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_50"))]
    pub m50: f32,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/51"))]
    pub m51: i32,
    #[rpcl2(rename("c52_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"))]
    pub m52: i16,
    #[rpcl2(rename("53"))]
    pub m53: u8,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_50_"))]
    pub m54: i32,
    #[rpcl2(rename("C49"))]
    pub m55: u32,
    #[rpcl2(rename("c56"))]
    pub m56: u8,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_57"))]
    pub m57: i16,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/58"))]
    pub m58: u8,
    #[rpcl2(rename("c59_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"))]
    pub m59: u8,
    #[rpcl2(rename("60"))]
    pub m60: f64,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_57_"))]
    pub m61: i8,
    #[rpcl2(rename("C56"))]
    pub m62: i8,
    #[rpcl2(rename("c63"))]
    pub m63: u16,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_64"))]
    pub m64: i32,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/65"))]
    pub m65: u8,
    #[rpcl2(rename("c66_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx"))]
    pub m66: i32,
    #[rpcl2(rename("67"))]
    pub m67: i8,
    #[rpcl2(rename("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_64_"))]
    pub m68: f32,
    #[rpcl2(rename("C63"))]
    pub m69: i16,
}

/// name, ROS code, size
pub const SPEC: [(&str, u8, usize); 70] = [
    ("c0", 2, 1),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_01", 5, 4),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/02", 8, 8),
    ("c03_xxx", 8, 8),
    ("4", 3, 2),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_01_", 6, 4),
    ("C0", 2, 1),
    ("c7", 3, 2),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_08", 4, 2),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/09", 7, 4),
    ("c10_xxxxxxxxxx", 7, 4),
    ("11", 4, 2),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_08_", 7, 4),
    ("C7", 2, 1),
    ("c14", 6, 4),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_15", 5, 4),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/16", 7, 4),
    ("c17_xxxxxxxxxxxxxxxxx", 8, 8),
    ("18", 2, 1),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_15_", 2, 1),
    ("C14", 1, 1),
    ("c21", 8, 8),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_22", 6, 4),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/23", 5, 4),
    ("c24_xxxxxxxxxxxxxxxxxxxxxxxx", 3, 2),
    ("25", 1, 1),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_22_", 5, 4),
    ("C21", 8, 8),
    ("c28", 2, 1),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_29", 8, 8),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/30", 2, 1),
    ("c31_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 3, 2),
    ("32", 6, 4),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_29_", 4, 2),
    ("C28", 2, 1),
    ("c35", 1, 1),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_36", 7, 4),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/37", 1, 1),
    ("c38_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 5, 4),
    ("39", 3, 2),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_36_", 6, 4),
    ("C35", 2, 1),
    ("c42", 4, 2),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_43", 3, 2),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/44", 2, 1),
    ("c45_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 5, 4),
    ("46", 7, 4),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_43_", 2, 1),
    ("C42", 3, 2),
    ("c49", 8, 8),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_50", 7, 4),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/51", 5, 4),
    ("c52_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 3, 2),
    ("53", 2, 1),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_50_", 5, 4),
    ("C49", 6, 4),
    ("c56", 2, 1),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_57", 3, 2),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/58", 2, 1),
    ("c59_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 2, 1),
    ("60", 8, 8),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_57_", 1, 1),
    ("C56", 1, 1),
    ("c63", 4, 2),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_64", 5, 4),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/65", 2, 1),
    ("c66_xxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx", 5, 4),
    ("67", 1, 1),
    ("calibrated/return_of_the_second_spinning_laser_scanner_on_the_roof/channel_64_", 7, 4),
    ("C63", 3, 2),
];

impl Wide70 {
    pub fn make(v: &[u64; 70]) -> Self {
        Wide70 {
            m00: u8::from_ne_bytes((v[0] as u8).to_ne_bytes()),
            m01: i32::from_ne_bytes((v[1] as u32).to_ne_bytes()),
            m02: f64::from_ne_bytes((v[2] as u64).to_ne_bytes()),
            m03: f64::from_ne_bytes((v[3] as u64).to_ne_bytes()),
            m04: i16::from_ne_bytes((v[4] as u16).to_ne_bytes()),
            m05: u32::from_ne_bytes((v[5] as u32).to_ne_bytes()),
            m06: u8::from_ne_bytes((v[6] as u8).to_ne_bytes()),
            m07: i16::from_ne_bytes((v[7] as u16).to_ne_bytes()),
            m08: u16::from_ne_bytes((v[8] as u16).to_ne_bytes()),
            m09: f32::from_ne_bytes((v[9] as u32).to_ne_bytes()),
            m10: f32::from_ne_bytes((v[10] as u32).to_ne_bytes()),
            m11: u16::from_ne_bytes((v[11] as u16).to_ne_bytes()),
            m12: f32::from_ne_bytes((v[12] as u32).to_ne_bytes()),
            m13: u8::from_ne_bytes((v[13] as u8).to_ne_bytes()),
            m14: u32::from_ne_bytes((v[14] as u32).to_ne_bytes()),
            m15: i32::from_ne_bytes((v[15] as u32).to_ne_bytes()),
            m16: f32::from_ne_bytes((v[16] as u32).to_ne_bytes()),
            m17: f64::from_ne_bytes((v[17] as u64).to_ne_bytes()),
            m18: u8::from_ne_bytes((v[18] as u8).to_ne_bytes()),
            m19: u8::from_ne_bytes((v[19] as u8).to_ne_bytes()),
            m20: i8::from_ne_bytes((v[20] as u8).to_ne_bytes()),
            m21: f64::from_ne_bytes((v[21] as u64).to_ne_bytes()),
            m22: u32::from_ne_bytes((v[22] as u32).to_ne_bytes()),
            m23: i32::from_ne_bytes((v[23] as u32).to_ne_bytes()),
            m24: i16::from_ne_bytes((v[24] as u16).to_ne_bytes()),
            m25: i8::from_ne_bytes((v[25] as u8).to_ne_bytes()),
            m26: i32::from_ne_bytes((v[26] as u32).to_ne_bytes()),
            m27: f64::from_ne_bytes((v[27] as u64).to_ne_bytes()),
            m28: u8::from_ne_bytes((v[28] as u8).to_ne_bytes()),
            m29: f64::from_ne_bytes((v[29] as u64).to_ne_bytes()),
            m30: u8::from_ne_bytes((v[30] as u8).to_ne_bytes()),
            m31: i16::from_ne_bytes((v[31] as u16).to_ne_bytes()),
            m32: u32::from_ne_bytes((v[32] as u32).to_ne_bytes()),
            m33: u16::from_ne_bytes((v[33] as u16).to_ne_bytes()),
            m34: u8::from_ne_bytes((v[34] as u8).to_ne_bytes()),
            m35: i8::from_ne_bytes((v[35] as u8).to_ne_bytes()),
            m36: f32::from_ne_bytes((v[36] as u32).to_ne_bytes()),
            m37: i8::from_ne_bytes((v[37] as u8).to_ne_bytes()),
            m38: i32::from_ne_bytes((v[38] as u32).to_ne_bytes()),
            m39: i16::from_ne_bytes((v[39] as u16).to_ne_bytes()),
            m40: u32::from_ne_bytes((v[40] as u32).to_ne_bytes()),
            m41: u8::from_ne_bytes((v[41] as u8).to_ne_bytes()),
            m42: u16::from_ne_bytes((v[42] as u16).to_ne_bytes()),
            m43: i16::from_ne_bytes((v[43] as u16).to_ne_bytes()),
            m44: u8::from_ne_bytes((v[44] as u8).to_ne_bytes()),
            m45: i32::from_ne_bytes((v[45] as u32).to_ne_bytes()),
            m46: f32::from_ne_bytes((v[46] as u32).to_ne_bytes()),
            m47: u8::from_ne_bytes((v[47] as u8).to_ne_bytes()),
            m48: i16::from_ne_bytes((v[48] as u16).to_ne_bytes()),
            m49: f64::from_ne_bytes((v[49] as u64).to_ne_bytes()),
            m50: f32::from_ne_bytes((v[50] as u32).to_ne_bytes()),
            m51: i32::from_ne_bytes((v[51] as u32).to_ne_bytes()),
            m52: i16::from_ne_bytes((v[52] as u16).to_ne_bytes()),
            m53: u8::from_ne_bytes((v[53] as u8).to_ne_bytes()),
            m54: i32::from_ne_bytes((v[54] as u32).to_ne_bytes()),
            m55: u32::from_ne_bytes((v[55] as u32).to_ne_bytes()),
            m56: u8::from_ne_bytes((v[56] as u8).to_ne_bytes()),
            m57: i16::from_ne_bytes((v[57] as u16).to_ne_bytes()),
            m58: u8::from_ne_bytes((v[58] as u8).to_ne_bytes()),
            m59: u8::from_ne_bytes((v[59] as u8).to_ne_bytes()),
            m60: f64::from_ne_bytes((v[60] as u64).to_ne_bytes()),
            m61: i8::from_ne_bytes((v[61] as u8).to_ne_bytes()),
            m62: i8::from_ne_bytes((v[62] as u8).to_ne_bytes()),
            m63: u16::from_ne_bytes((v[63] as u16).to_ne_bytes()),
            m64: i32::from_ne_bytes((v[64] as u32).to_ne_bytes()),
            m65: u8::from_ne_bytes((v[65] as u8).to_ne_bytes()),
            m66: i32::from_ne_bytes((v[66] as u32).to_ne_bytes()),
            m67: i8::from_ne_bytes((v[67] as u8).to_ne_bytes()),
            m68: f32::from_ne_bytes((v[68] as u32).to_ne_bytes()),
            m69: i16::from_ne_bytes((v[69] as u16).to_ne_bytes()),
        }
    }
    pub fn look(&self) -> [u64; 70] {
        [
            u8::from_ne_bytes(self.m00.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m01.to_ne_bytes()) as u64,
            u64::from_ne_bytes(self.m02.to_ne_bytes()) as u64,
            u64::from_ne_bytes(self.m03.to_ne_bytes()) as u64,
            u16::from_ne_bytes(self.m04.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m05.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m06.to_ne_bytes()) as u64,
            u16::from_ne_bytes(self.m07.to_ne_bytes()) as u64,
            u16::from_ne_bytes(self.m08.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m09.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m10.to_ne_bytes()) as u64,
            u16::from_ne_bytes(self.m11.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m12.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m13.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m14.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m15.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m16.to_ne_bytes()) as u64,
            u64::from_ne_bytes(self.m17.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m18.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m19.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m20.to_ne_bytes()) as u64,
            u64::from_ne_bytes(self.m21.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m22.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m23.to_ne_bytes()) as u64,
            u16::from_ne_bytes(self.m24.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m25.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m26.to_ne_bytes()) as u64,
            u64::from_ne_bytes(self.m27.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m28.to_ne_bytes()) as u64,
            u64::from_ne_bytes(self.m29.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m30.to_ne_bytes()) as u64,
            u16::from_ne_bytes(self.m31.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m32.to_ne_bytes()) as u64,
            u16::from_ne_bytes(self.m33.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m34.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m35.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m36.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m37.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m38.to_ne_bytes()) as u64,
            u16::from_ne_bytes(self.m39.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m40.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m41.to_ne_bytes()) as u64,
            u16::from_ne_bytes(self.m42.to_ne_bytes()) as u64,
            u16::from_ne_bytes(self.m43.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m44.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m45.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m46.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m47.to_ne_bytes()) as u64,
            u16::from_ne_bytes(self.m48.to_ne_bytes()) as u64,
            u64::from_ne_bytes(self.m49.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m50.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m51.to_ne_bytes()) as u64,
            u16::from_ne_bytes(self.m52.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m53.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m54.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m55.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m56.to_ne_bytes()) as u64,
            u16::from_ne_bytes(self.m57.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m58.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m59.to_ne_bytes()) as u64,
            u64::from_ne_bytes(self.m60.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m61.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m62.to_ne_bytes()) as u64,
            u16::from_ne_bytes(self.m63.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m64.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m65.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m66.to_ne_bytes()) as u64,
            u8::from_ne_bytes(self.m67.to_ne_bytes()) as u64,
            u32::from_ne_bytes(self.m68.to_ne_bytes()) as u64,
            u16::from_ne_bytes(self.m69.to_ne_bytes()) as u64,
        ]
    }
}
