pub mod curves;
pub mod kyber;
pub mod noise;
pub mod session;
