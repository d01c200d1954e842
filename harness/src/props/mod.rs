use crate::engine::*;
#[cfg(feature = "auto")]
mod a;
#[cfg(feature = "cs")]
mod c;
mod d;
mod g;
#[cfg(all(feature = "cs", feature = "auto"))]
mod i;
mod s;
mod t;
mod u;
#[cfg(feature = "auto")]
mod x;
mod y;
pub fn all() -> Vec<Prop> {
    let mut v = vec![];
    #[cfg(feature = "auto")]
    v.extend(a::all());
    #[cfg(feature = "cs")]
    v.extend(c::all());
    v.extend(d::all());
    v.extend(g::all());
    #[cfg(all(feature = "cs", feature = "auto"))]
    v.extend(i::all());
    v.extend(s::all());
    v.extend(t::all());
    v.extend(u::all());
    #[cfg(feature = "auto")]
    v.extend(x::all());
    v.extend(y::all());
    v
}
