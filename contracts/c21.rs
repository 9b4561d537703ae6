//! C21: drawing an element draws what it stands for.
//! The rerun SDK is its assumed contract (engine/rerun): it keeps what it is given.
mod common;
use common::*;
use factrs::containers::{Key, TypedSymbol, Symbol, Values};
use factrs::optimizers::{OptObserver, OptObserverVec};
use factrs::rerun::RerunObserver;
use rerun::components::{RotationQuat};
use rerun::{wide, Arrows2D, Arrows3D, AsComponents, Color, Points2D, Points3D, RecordingStream, Rotation3D, Transform3D, Vec2D, Vec3D, F};

fn w(v: &[F]) -> Vec<dtype> {
    v.iter().map(|x| wide(*x)).collect()
}
fn close(label: &str, a: &[dtype], b: &[dtype]) {
    ensures_fact(&format!("{label}: how many numbers"), a.len() == b.len());
    for (x, y) in a.iter().zip(b) {
        // single precision when the contract runs concretely
        let m = q(1.0) + x.clone() * x.clone() + y.clone() * y.clone();
        let d = (x.clone() - y.clone()) * (x.clone() - y.clone());
        if SYMBOLIC {
            ensures_eq(label, x.clone(), y.clone());
        } else {
            ensures(label, le(d, q(1e-12) * m));
        }
    }
}
const RGB: [Color; 3] = [Color([255, 0, 0, 255]), Color([0, 255, 0, 255]), Color([0, 0, 255, 255])];

// what each element is drawn as: rows of numbers
fn axes2(r: &SO2) -> Vec<Vec<dtype>> {
    let (s, c) = (r.to_theta().sin(), r.to_theta().cos());
    vec![vec![c.clone(), s.clone()], vec![-s, c]]
}
fn axes3(r: &SO3) -> Vec<Vec<dtype>> {
    // the columns of the rotation of the quaternion
    let (x, y, z, w) = (r.x(), r.y(), r.z(), r.w());
    let t = q(2.0);
    let o = q(1.0);
    vec![
        vec![o.clone() - t * (y * y + z * z), t * (x * y + w * z), t * (x * z - w * y)],
        vec![t * (x * y - w * z), o.clone() - t * (x * x + z * z), t * (y * z + w * x)],
        vec![t * (x * z + w * y), t * (y * z - w * x), o - t * (x * x + y * y)],
    ]
}
fn pos2(p: &SE2) -> Vec<dtype> {
    vec![p.x(), p.y()]
}
fn pos3(p: &SE3) -> Vec<dtype> {
    p.xyz().iter().cloned().collect()
}
macro_rules! arrows_are {
    ($f:ident, $A:ty, $n:expr) => {
        fn $f(label: &str, a: &$A, origins: Option<Vec<Vec<dtype>>>, axes: Vec<Vec<dtype>>) {
            ensures_fact(&format!("{label}: number of arrows"), a.vectors.len() == axes.len());
            for (v, x) in a.vectors.iter().zip(&axes) {
                close(&format!("{label}: arrow along its axis"), &w(&v.0 .0), x);
            }
            match (&a.origins, &origins) {
                (Some(o), Some(x)) => {
                    ensures_fact(&format!("{label}: one origin per arrow"), o.len() == x.len());
                    for (o, x) in o.iter().zip(x) {
                        close(&format!("{label}: origin of the arrow"), &w(&o.0 .0), x);
                    }
                }
                (Some(o), None) => {
                    for o in o {
                        close(&format!("{label}: a rotation is drawn at the origin"), &w(&o.0 .0), &vec![q(0.0); $n]);
                    }
                }
                (None, o) => {
                    ensures_fact(&format!("{label}: arrows have origins"), o.is_none());
                }
            }
            let want: Vec<Color> = (0..axes.len()).map(|i| RGB[i % $n]).collect();
            ensures_fact(&format!("{label}: axes are red, green, blue in order"), a.colors.as_ref() == Some(&want));
        }
    };
}
arrows_are!(arrows2, Arrows2D, 2);
arrows_are!(arrows3, Arrows3D, 3);
macro_rules! points_are {
    ($f:ident, $P:ty) => {
        fn $f(label: &str, p: &$P, want: Vec<Vec<dtype>>) {
            ensures_fact(&format!("{label}: one point each"), p.positions.len() == want.len());
            for (p, x) in p.positions.iter().zip(&want) {
                close(&format!("{label}: where it is"), &w(&p.0 .0), x);
            }
        }
    };
}
points_are!(points2, Points2D);
points_are!(points3, Points3D);

fn quat(label: &str, r: RotationQuat, s: &SO3) {
    close(label, &w(&r.0 .0), &[s.x(), s.y(), s.z(), s.w()]);
}

fn vectors() {
    let a = VectorVar2::any("a");
    close("VectorVar2 as Vec2D", &w(&Vec2D::from(&a).0), &a.obs());
    close("VectorVar2 as Vec2D, by value", &w(&Vec2D::from(a.clone()).0), &a.obs());
    points2("VectorVar2 as Points2D", &Points2D::from(&a), vec![a.obs()]);
    points2("VectorVar2 as Points2D, by value", &Points2D::from(a.clone()), vec![a.obs()]);
    let b = VectorVar3::any("b");
    close("VectorVar3 as Vec3D", &w(&Vec3D::from(&b).0), &b.obs());
    close("VectorVar3 as Vec3D, by value", &w(&Vec3D::from(b.clone()).0), &b.obs());
    points3("VectorVar3 as Points3D", &Points3D::from(&b), vec![b.obs()]);
    points3("VectorVar3 as Points3D, by value", &Points3D::from(b.clone()), vec![b.obs()]);
}
fn planar() {
    let r = SO2::any("r");
    arrows2("SO2 as Arrows2D", &Arrows2D::from(&r), None, axes2(&r));
    arrows2("SO2 as Arrows2D, by value", &Arrows2D::from(r.clone()), None, axes2(&r));
    let p = SE2::any("p");
    let o = Some(vec![pos2(&p); 2]);
    arrows2("SE2 as Arrows2D", &Arrows2D::from(&p), o.clone(), axes2(p.rot()));
    arrows2("SE2 as Arrows2D, by value", &Arrows2D::from(p.clone()), o, axes2(p.rot()));
    points2("SE2 as Points2D", &Points2D::from(&p), vec![pos2(&p)]);
    points2("SE2 as Points2D, by value", &Points2D::from(p.clone()), vec![pos2(&p)]);
    close("SE2 as Vec2D", &w(&Vec2D::from(&p).0), &pos2(&p));
    close("SE2 as Vec2D, by value", &w(&Vec2D::from(p.clone()).0), &pos2(&p));
}
fn spatial() {
    let r = SO3::any("r");
    let Rotation3D::Quaternion(a) = Rotation3D::from(&r);
    quat("SO3 as Rotation3D", a, &r);
    let Rotation3D::Quaternion(a) = Rotation3D::from(r.clone());
    quat("SO3 as Rotation3D, by value", a, &r);
    arrows3("SO3 as Arrows3D", &Arrows3D::from(&r), None, axes3(&r));
    arrows3("SO3 as Arrows3D, by value", &Arrows3D::from(r.clone()), None, axes3(&r));
    let p = SE3::any("p");
    for (t, how) in [(Transform3D::from(&p), ""), (Transform3D::from(p.clone()), ", by value")] {
        ensures_fact("SE3 as Transform3D has both parts", t.translation.is_some() && t.quaternion.is_some());
        if let (Some(x), Some(a)) = (t.translation, t.quaternion) {
            close(&format!("SE3 as Transform3D: translation{how}"), &w(&x.0 .0), &pos3(&p));
            quat(&format!("SE3 as Transform3D: rotation{how}"), a, p.rot());
        }
    }
    let o = Some(vec![pos3(&p); 3]);
    arrows3("SE3 as Arrows3D", &Arrows3D::from(&p), o.clone(), axes3(p.rot()));
    arrows3("SE3 as Arrows3D, by value", &Arrows3D::from(p.clone()), o, axes3(p.rot()));
    points3("SE3 as Points3D", &Points3D::from(&p), vec![pos3(&p)]);
    points3("SE3 as Points3D, by value", &Points3D::from(p.clone()), vec![pos3(&p)]);
    close("SE3 as Vec3D", &w(&Vec3D::from(&p).0), &pos3(&p));
    close("SE3 as Vec3D, by value", &w(&Vec3D::from(p.clone()).0), &pos3(&p));
}
fn many<V: El>() -> Vec<V> {
    let n = choose("number of elements", 4);
    (0..n).map(|i| V::any(&format!("e{i}"))).collect()
}
fn many_vectors() {
    let a: Vec<VectorVar2> = many();
    points2("VectorVar2 list", &a.iter().collect(), a.iter().map(|x| x.obs()).collect());
    let b: Vec<VectorVar3> = many();
    points3("VectorVar3 list", &b.iter().collect(), b.iter().map(|x| x.obs()).collect());
}
fn many_planar() {
    let a: Vec<SE2> = many();
    points2("SE2 list", &a.iter().collect(), a.iter().map(pos2).collect());
    let o = a.iter().flat_map(|p| vec![pos2(p); 2]).collect();
    arrows2("SE2 list", &a.iter().collect(), Some(o), a.iter().flat_map(|p| axes2(p.rot())).collect());
}
fn many_spatial() {
    let a: Vec<SE3> = many();
    points3("SE3 list", &a.iter().collect(), a.iter().map(pos3).collect());
    let o = a.iter().flat_map(|p| vec![pos3(p); 3]).collect();
    arrows3("SE3 list", &a.iter().collect(), Some(o), a.iter().flat_map(|p| axes3(p.rot())).collect());
}

#[derive(Clone, Copy, Debug)]
struct Sy(u64);
impl From<Sy> for Key {
    fn from(s: Sy) -> Key {
        Key(s.0)
    }
}
impl std::fmt::Display for Sy {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", self.0)
    }
}
impl Symbol for Sy {}
impl<V: VariableUmbrella> TypedSymbol<V> for Sy {}
/// an observer logs, at each step, exactly the variables of its type
fn stepwise<V, R>(other: impl Fn(&mut Values), rows: fn(&V) -> Vec<Vec<dtype>>)
where
    V: El,
    R: AsComponents + 'static,
    for<'a> R: FromIterator<&'a V>,
{
    let n = choose("variables of the type drawn", 3);
    let steps = 1 + choose("steps", 2);
    let through = choose("called directly or through the collection", 2) == 1;
    let rec = RecordingStream::default();
    let obs = RerunObserver::<V, R>::new(rec.clone(), "a/topic");
    let mut all = OptObserverVec::default();
    let call: Box<dyn Fn(&Values, usize)> = if through {
        all.add(obs);
        Box::new(move |v, i| all.notify(v, i))
    } else {
        Box::new(move |v, i| obs.on_step(v, q(i as f64)))
    };
    let mut want = vec![];
    for s in 0..steps {
        let mut v = Values::new();
        let xs: Vec<V> = (0..n).map(|i| V::any(&format!("s{s}.v{i}"))).collect();
        for (i, x) in xs.iter().enumerate() {
            v.insert_unchecked(Sy(10 - 3 * i as u64), x.clone());
        }
        other(&mut v);
        call(&v, 7 + s);
        // the order in which the container yields them is its own affair
        want.push(v.filter::<V>().map(|x| rows(x)).collect::<Vec<_>>().concat());
        ensures_fact("every variable of the type is drawn", v.filter::<V>().count() == n);
    }
    let logged = rec.logged.borrow();
    ensures_fact("one drawing per step", logged.len() == steps);
    for (s, l) in logged.iter().enumerate().take(steps) {
        ensures_fact("on its topic", l.path == "a/topic");
        ensures_fact("as part of the timeline", !l.is_static);
        let t: Vec<_> = l.time.iter().filter(|x| x.0 == "stable_time").collect();
        ensures_fact("at the step's time", t.len() == 1);
        if let Some(t) = t.first() {
            close("at the step's time", &[t.1.clone()], &[q((7 + s) as f64)]);
        }
        ensures_fact("everything of its type, nothing else", l.rows.len() == want[s].len());
        for (a, b) in l.rows.iter().zip(&want[s]) {
            close("drawn as it is at this step", &w(a), b);
        }
    }
}
fn observer_points() {
    stepwise::<VectorVar3, Points3D>(
        |v| {
            v.insert_unchecked(Sy(50), VectorVar2::any("o"));
        },
        |x| vec![x.obs()],
    );
}
fn observer_planar() {
    stepwise::<SE2, Arrows2D>(
        |v| {
            v.insert_unchecked(Sy(50), VectorVar2::any("o"));
        },
        |p| axes2(p.rot()).into_iter().map(|a| [pos2(p), a].concat()).collect(),
    );
}
fn observer_spatial() {
    stepwise::<SE3, Arrows3D>(
        |v| {
            v.insert_unchecked(Sy(50), SO3::any("o"));
        },
        |p| axes3(p.rot()).into_iter().map(|a| [pos3(p), a].concat()).collect(),
    );
}
const LIST: &str = "lists of at most three elements";
const HIST: &str = "at most two variables of the type and two steps";
const K: &[Contract] = &[
    Contract { name: "vectors", functions: "Vec2D::from, Vec3D::from, Points2D::from, Points3D::from", bounded: "", run: vectors },
    Contract { name: "planar", functions: "Arrows2D::from, Points2D::from, Vec2D::from", bounded: "", run: planar },
    Contract { name: "spatial", functions: "Rotation3D::from, Transform3D::from, Arrows3D::from, Points3D::from, Vec3D::from", bounded: "", run: spatial },
    Contract { name: "many_vectors", functions: "Points2D::from_iter, Points3D::from_iter", bounded: LIST, run: many_vectors },
    Contract { name: "many_planar", functions: "Arrows2D::from_iter, Points2D::from_iter", bounded: LIST, run: many_planar },
    Contract { name: "many_spatial", functions: "Arrows3D::from_iter, Points3D::from_iter", bounded: LIST, run: many_spatial },
    Contract { name: "observer_points", functions: "RerunObserver::{new, on_step}, OptObserverVec::{add, notify}, Values::filter", bounded: HIST, run: observer_points },
    Contract { name: "observer_planar", functions: "RerunObserver::{new, on_step}, OptObserverVec::{add, notify}, Values::filter", bounded: HIST, run: observer_planar },
    Contract { name: "observer_spatial", functions: "RerunObserver::{new, on_step}, OptObserverVec::{add, notify}, Values::filter", bounded: HIST, run: observer_spatial },
];
fn main() {
    run_all(K)
}
