//! One monitor per property.
use crate::core::*;
pub mod single; pub mod pairs; pub mod region; pub mod sat; pub mod shape; pub mod robust; pub mod bind; pub mod trace;
pub fn dispatch(c: &Ctx) -> Option<Report> {
    Some(match c.id.as_str() { "P01" => single::p01(c), "P02" => single::p02(c), "P03" => single::p03(c), "P06" => pairs::p06(c), "P04" => region::p04(c), "P05" => region::p05(c), "P11" => region::p11(c), "P13" => region::p13(c), "P12" => robust::p12(c), "P14" => robust::p14(c), "P15" => bind::p15(c), "P16" => bind::p16(c), "P10" => shape::p10(c), "P17" => shape::p17(c), "P19" => shape::p19(c), "P08" => sat::p08(c), "P09" => sat::p09(c), "P07" => pairs::p07(c), "P18" => pairs::p18(c), "P20" => trace::p20(c), _ => return None })
}
