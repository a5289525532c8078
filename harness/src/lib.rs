pub mod rng;
pub mod rast;
pub mod leb;
pub mod utf8;
pub mod dec;
pub mod enc;
pub mod val;
pub mod imp;
pub mod pool;
pub mod gen;
pub mod mon;
pub mod judge;
pub mod fam;
pub mod work;
pub mod api;
pub mod det;
pub mod heap;
pub mod back;
pub mod mem;
pub mod props;
