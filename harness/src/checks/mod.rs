#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(any(feature = "c14", feature = "c25"))]
pub mod c14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(any(feature = "c19", feature = "c24"))]
pub mod c19;
#[cfg(feature = "c20")]
pub mod c20;
#[cfg(feature = "c21")]
pub mod c21;
#[cfg(feature = "c22")]
pub mod c22;
#[cfg(feature = "c23")]
pub mod c23;
#[cfg(feature = "c24")]
pub mod c24;
#[cfg(feature = "c26")]
pub mod c26;
