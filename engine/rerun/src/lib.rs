//! Assumed contract of the rerun SDK, as far as factrs uses it: every constructor keeps what it is given, and a recording
//! stream records what is logged, where and when. Numbers are symbolic reals in the symbolic build (conversion to f32 is then
//! the identity).
use std::cell::RefCell;
use std::rc::Rc;
#[cfg(feature = "sym")]
mod num {
    pub type F = symnum::Sym;
    pub type Time = symnum::Sym;
    pub fn wide(x: F) -> Time {
        x
    }
}
#[cfg(not(feature = "sym"))]
mod num {
    pub type F = f32;
    pub type Time = f64;
    pub fn wide(x: F) -> Time {
        x as f64
    }
}
pub use num::{wide, Time, F};

macro_rules! vector {
    ($v:ident, $n:expr, ($($x:ident: $i:expr),*), $t:ty) => {
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub struct $v(pub [F; $n]);
        impl $v {
            pub const fn new($($x: F),*) -> Self {
                Self([$($x),*])
            }
            $(pub fn $x(&self) -> F {
                self.0[$i]
            })*
        }
        impl From<[F; $n]> for $v {
            fn from(v: [F; $n]) -> Self {
                Self(v)
            }
        }
        impl From<$v> for [F; $n] {
            fn from(v: $v) -> Self {
                v.0
            }
        }
        impl From<$t> for $v {
            fn from(($($x),*): $t) -> Self {
                Self([$($x),*])
            }
        }
        impl<'a> From<&'a $v> for $v {
            fn from(v: &'a $v) -> Self {
                *v
            }
        }
        impl<'a> From<&'a [F; $n]> for $v {
            fn from(v: &'a [F; $n]) -> Self {
                Self(*v)
            }
        }
        impl<'a> From<&'a $t> for $v {
            fn from(($($x),*): &'a $t) -> Self {
                Self([$(*$x),*])
            }
        }
        impl<I: std::slice::SliceIndex<[F]>> std::ops::Index<I> for $v {
            type Output = I::Output;
            fn index(&self, i: I) -> &Self::Output {
                &self.0[i]
            }
        }
        impl<I: std::slice::SliceIndex<[F]>> std::ops::IndexMut<I> for $v {
            fn index_mut(&mut self, i: I) -> &mut Self::Output {
                &mut self.0[i]
            }
        }
    };
}
macro_rules! wrapper {
    ($w:ident, $v:ident, ($($x:ident),*)) => {
        #[derive(Clone, Copy, Debug, PartialEq)]
        pub struct $w(pub $v);
        impl<T: Into<$v>> From<T> for $w {
            fn from(v: T) -> Self {
                Self(v.into())
            }
        }
        impl $w {
            pub const fn new($($x: F),*) -> Self {
                Self($v::new($($x),*))
            }
        }
        impl std::ops::Deref for $w {
            type Target = $v;
            fn deref(&self) -> &$v {
                &self.0
            }
        }
        impl std::ops::DerefMut for $w {
            fn deref_mut(&mut self) -> &mut $v {
                &mut self.0
            }
        }
    };
}
vector!(Vec2D, 2, (x: 0, y: 1), (F, F));
vector!(Vec3D, 3, (x: 0, y: 1, z: 2), (F, F, F));
wrapper!(Position2D, Vec2D, (x, y));
wrapper!(Vector2D, Vec2D, (x, y));
wrapper!(Position3D, Vec3D, (x, y, z));
wrapper!(Vector3D, Vec3D, (x, y, z));
wrapper!(Translation3D, Vec3D, (x, y, z));
wrapper!(Scale3D, Vec3D, (x, y, z));

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Quaternion(pub [F; 4]);
impl Quaternion {
    pub const fn from_xyzw(xyzw: [F; 4]) -> Self {
        Self(xyzw)
    }
    pub const fn from_wxyz([w, x, y, z]: [F; 4]) -> Self {
        Self([x, y, z, w])
    }
    pub fn xyzw(&self) -> [F; 4] {
        self.0
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct RotationQuat(pub Quaternion);
impl<T: Into<Quaternion>> From<T> for RotationQuat {
    fn from(v: T) -> Self {
        Self(v.into())
    }
}
impl From<[F; 4]> for Quaternion {
    fn from(v: [F; 4]) -> Self {
        Self(v)
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rotation3D {
    Quaternion(RotationQuat),
}
impl From<RotationQuat> for Rotation3D {
    fn from(q: RotationQuat) -> Self {
        Self::Quaternion(q)
    }
}
impl From<Quaternion> for Rotation3D {
    fn from(q: Quaternion) -> Self {
        Self::Quaternion(RotationQuat(q))
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Color(pub [u8; 4]);
impl Color {
    pub const fn from_rgb(r: u8, g: u8, b: u8) -> Self {
        Self([r, g, b, 255])
    }
    pub const fn from_unmultiplied_rgba(r: u8, g: u8, b: u8, a: u8) -> Self {
        Self([r, g, b, a])
    }
}
impl From<[u8; 3]> for Color {
    fn from([r, g, b]: [u8; 3]) -> Self {
        Self::from_rgb(r, g, b)
    }
}
impl From<(u8, u8, u8)> for Color {
    fn from((r, g, b): (u8, u8, u8)) -> Self {
        Self::from_rgb(r, g, b)
    }
}
impl From<[u8; 4]> for Color {
    fn from(c: [u8; 4]) -> Self {
        Self(c)
    }
}
impl From<u32> for Color {
    fn from(c: u32) -> Self {
        Self(c.to_be_bytes())
    }
}
macro_rules! drawn {
    ($arrows:ident, $points:ident, $pos:ident, $vec:ident) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $arrows {
            pub vectors: Vec<$vec>,
            pub origins: Option<Vec<$pos>>,
            pub colors: Option<Vec<Color>>,
        }
        impl $arrows {
            pub fn from_vectors(v: impl IntoIterator<Item = impl Into<$vec>>) -> Self {
                Self { vectors: v.into_iter().map(Into::into).collect(), origins: None, colors: None }
            }
            pub fn with_origins(mut self, v: impl IntoIterator<Item = impl Into<$pos>>) -> Self {
                self.origins = Some(v.into_iter().map(Into::into).collect());
                self
            }
            pub fn with_colors(mut self, v: impl IntoIterator<Item = impl Into<Color>>) -> Self {
                self.colors = Some(v.into_iter().map(Into::into).collect());
                self
            }
        }
        impl AsComponents for $arrows {
            fn rows(&self) -> Vec<Vec<F>> {
                let o = self.origins.clone().unwrap_or_default();
                self.vectors.iter().enumerate().map(|(i, v)| [o.get(i).map(|o| o.0.0.to_vec()).unwrap_or_default(), v.0.0.to_vec()].concat()).collect()
            }
        }
        #[derive(Clone, Debug, PartialEq)]
        pub struct $points {
            pub positions: Vec<$pos>,
            pub colors: Option<Vec<Color>>,
        }
        impl $points {
            pub fn new(v: impl IntoIterator<Item = impl Into<$pos>>) -> Self {
                Self { positions: v.into_iter().map(Into::into).collect(), colors: None }
            }
            pub fn with_colors(mut self, v: impl IntoIterator<Item = impl Into<Color>>) -> Self {
                self.colors = Some(v.into_iter().map(Into::into).collect());
                self
            }
        }
        impl AsComponents for $points {
            fn rows(&self) -> Vec<Vec<F>> {
                self.positions.iter().map(|p| p.0.0.to_vec()).collect()
            }
        }
    };
}
drawn!(Arrows2D, Points2D, Position2D, Vector2D);
drawn!(Arrows3D, Points3D, Position3D, Vector3D);

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Transform3D {
    pub translation: Option<Translation3D>,
    pub quaternion: Option<RotationQuat>,
}
impl Transform3D {
    pub fn from_translation_rotation(t: impl Into<Translation3D>, r: impl Into<Rotation3D>) -> Self {
        Self::from_rotation(r).with_translation(t)
    }
    pub fn from_translation(t: impl Into<Translation3D>) -> Self {
        Self { translation: Some(t.into()), quaternion: None }
    }
    pub fn from_rotation(r: impl Into<Rotation3D>) -> Self {
        let Rotation3D::Quaternion(q) = r.into();
        Self { translation: None, quaternion: Some(q) }
    }
    pub fn with_translation(mut self, t: impl Into<Translation3D>) -> Self {
        self.translation = Some(t.into());
        self
    }
    pub fn with_rotation(mut self, r: impl Into<Rotation3D>) -> Self {
        let Rotation3D::Quaternion(q) = r.into();
        self.quaternion = Some(q);
        self
    }
    pub fn with_quaternion(mut self, q: impl Into<RotationQuat>) -> Self {
        self.quaternion = Some(q.into());
        self
    }
}
/// what a drawing is made of, one row per element
pub trait AsComponents {
    fn rows(&self) -> Vec<Vec<F>>;
}
#[derive(Clone, Debug)]
pub struct Logged {
    pub time: Vec<(String, Time)>,
    pub path: String,
    pub rows: Vec<Vec<F>>,
    pub is_static: bool,
}
#[derive(Debug)]
pub struct RecordingStreamError;
pub type RecordingStreamResult<T> = Result<T, RecordingStreamError>;
#[derive(Clone, Default)]
pub struct RecordingStream {
    pub time: Rc<RefCell<Vec<(String, Time)>>>,
    pub logged: Rc<RefCell<Vec<Logged>>>,
}
impl RecordingStream {
    pub fn set_time_seconds(&self, timeline: impl Into<String>, t: impl Into<Time>) {
        let n = timeline.into();
        let mut ts = self.time.borrow_mut();
        ts.retain(|x| x.0 != n);
        ts.push((n, t.into()));
    }
    pub fn log(&self, path: impl Into<String>, what: &impl AsComponents) -> RecordingStreamResult<()> {
        self.logged.borrow_mut().push(Logged { time: self.time.borrow().clone(), path: path.into(), rows: what.rows(), is_static: false });
        Ok(())
    }
    pub fn log_static(&self, path: impl Into<String>, what: &impl AsComponents) -> RecordingStreamResult<()> {
        self.logged.borrow_mut().push(Logged { time: self.time.borrow().clone(), path: path.into(), rows: what.rows(), is_static: true });
        Ok(())
    }
}
pub mod components {
    pub use crate::{Color, Position2D, Position3D, RotationQuat, Scale3D, Translation3D, Vector2D, Vector3D};
}
pub mod datatypes {
    pub use crate::{Quaternion, Vec2D, Vec3D};
}
pub mod archetypes {
    pub use crate::{Arrows2D, Arrows3D, Points2D, Points3D, Transform3D};
}
