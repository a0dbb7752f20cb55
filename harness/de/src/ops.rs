//! Operator sets under test, with the functions the harness holds them to.
use dynamic_expressions::operator_enum::builtin;
use dynamic_expressions::operator_enum::presets::{BuiltinOpsF32, BuiltinOpsF64};
use dynamic_expressions::{num_traits::Float, HasOp, OpId, Operator, OperatorSet};

pub trait Num: Float + core::ops::AddAssign + std::fmt::Display + std::fmt::Debug + Send + 'static {
    fn of(v: f64) -> Self;
    fn f(self) -> f64;
    fn same(self, o: Self) -> bool;
    const EPS: f64;
    const BITS: u32;
}
impl Num for f64 {
    fn of(v: f64) -> f64 {
        v
    }
    fn f(self) -> f64 {
        self
    }
    fn same(self, o: f64) -> bool {
        vcommon::same64(self, o)
    }
    const EPS: f64 = f64::EPSILON;
    const BITS: u32 = 64;
}
impl Num for f32 {
    fn of(v: f64) -> f32 {
        v as f32
    }
    fn f(self) -> f64 {
        self as f64
    }
    fn same(self, o: f32) -> bool {
        vcommon::same32(self, o)
    }
    const EPS: f64 = f32::EPSILON as f64;
    const BITS: u32 = 32;
}

pub trait TestOps: OperatorSet<T = <Self as TestOps>::N> + Sized + 'static {
    type N: Num;
    /// Declared operators per arity (index 0 = arity 1): ids in declaration order.
    fn ids() -> Vec<(u8, u16)>;
    /// The function declared for that operator.
    fn rf(op: OpId, a: &[Self::N]) -> Self::N;
    /// The partial derivative declared for that operator.
    fn rp(op: OpId, a: &[Self::N], idx: usize) -> Self::N;
}

macro_rules! builtin_lists {
    ($m:ident, $($x:tt)*) => { $m!{ $($x)*;
        Abs "abs", Abs2 "abs2", Acos "acos", Acosh "acosh", Asin "asin", Asinh "asinh", Atan "atan", Atanh "atanh", Cbrt "cbrt", Cos "cos", Cosh "cosh",
        Cot "cot", Csc "csc", Exp "exp", Exp2 "exp2", Expm1 "expm1", Identity "identity", Inv "inv", Log "log", Log1p "log1p", Log2 "log2", Log10 "log10",
        Neg "neg", Sec "sec", Sign "sign", Sin "sin", Sinh "sinh", Sqrt "sqrt", Tan "tan", Tanh "tanh";
        Add "add", Atan2 "atan2", Div "div", Max "max", Min "min", Mul "mul", Pow "pow", Sub "sub";
        Clamp "clamp", Fma "fma" } };
}

macro_rules! builtin_testops {
    ($Ops:ident, $t:ty; $($u:ident $un:literal),*; $($b:ident $bn:literal),*; $($c:ident $cn:literal),*) => {
        impl TestOps for $Ops {
            type N = $t;
            fn ids() -> Vec<(u8, u16)> {
                vec![
                    $((1, <$Ops as HasOp<builtin::$u>>::ID),)*
                    $((2, <$Ops as HasOp<builtin::$b>>::ID),)*
                    $((3, <$Ops as HasOp<builtin::$c>>::ID),)*
                ]
            }
            fn rf(op: OpId, a: &[$t]) -> $t {
                match op.arity {
                    1 => { $(if op.id == <$Ops as HasOp<builtin::$u>>::ID { return <builtin::$u as Operator<$t, 1>>::eval(&[a[0]]); })* }
                    2 => { $(if op.id == <$Ops as HasOp<builtin::$b>>::ID { return <builtin::$b as Operator<$t, 2>>::eval(&[a[0], a[1]]); })* }
                    3 => { $(if op.id == <$Ops as HasOp<builtin::$c>>::ID { return <builtin::$c as Operator<$t, 3>>::eval(&[a[0], a[1], a[2]]); })* }
                    _ => {}
                }
                panic!("harness: unknown op")
            }
            fn rp(op: OpId, a: &[$t], idx: usize) -> $t {
                match op.arity {
                    1 => { $(if op.id == <$Ops as HasOp<builtin::$u>>::ID { return <builtin::$u as Operator<$t, 1>>::partial(&[a[0]], idx); })* }
                    2 => { $(if op.id == <$Ops as HasOp<builtin::$b>>::ID { return <builtin::$b as Operator<$t, 2>>::partial(&[a[0], a[1]], idx); })* }
                    3 => { $(if op.id == <$Ops as HasOp<builtin::$c>>::ID { return <builtin::$c as Operator<$t, 3>>::partial(&[a[0], a[1], a[2]], idx); })* }
                    _ => {}
                }
                panic!("harness: unknown op")
            }
        }
    };
}
builtin_lists!(builtin_testops, BuiltinOpsF64, f64);
builtin_lists!(builtin_testops, BuiltinOpsF32, f32);

macro_rules! name_fn {
    ($Ops:ident; $($u:ident $un:literal),*; $($b:ident $bn:literal),*; $($c:ident $cn:literal),*) => {
        /// Independent table: (arity, name, id).
        pub fn builtin_table() -> Vec<(u8, &'static str, u16)> {
            vec![
                $((1, $un, <$Ops as HasOp<builtin::$u>>::ID),)*
                $((2, $bn, <$Ops as HasOp<builtin::$b>>::ID),)*
                $((3, $cn, <$Ops as HasOp<builtin::$c>>::ID),)*
            ]
        }
    };
}
builtin_lists!(name_fn, BuiltinOpsF64);
macro_rules! name_fn32 {
    ($Ops:ident; $($u:ident $un:literal),*; $($b:ident $bn:literal),*; $($c:ident $cn:literal),*) => {
        pub fn builtin_table32() -> Vec<(u8, &'static str, u16)> {
            vec![
                $((1, $un, <$Ops as HasOp<builtin::$u>>::ID),)*
                $((2, $bn, <$Ops as HasOp<builtin::$b>>::ID),)*
                $((3, $cn, <$Ops as HasOp<builtin::$c>>::ID),)*
            ]
        }
    };
}
builtin_lists!(name_fn32, BuiltinOpsF32);

/// Declares a custom opset through the crate's macro and, separately, the table of plain functions the
/// harness compares it with. Each operator: name, meta tokens, |args| value, [partials].
macro_rules! kit {
    ($Ops:ident, $t:ty, $D:literal, $meta:ident; $( $ar:literal => [ $( $name:ident ($disp:expr, $infix:expr, $com:expr, $assoc:expr, $cx:expr) { $($body:tt)* } |$a:ident| $f:expr ; $($p:expr),* ; )* ] )*) => {
        dynamic_expressions::custom_opset! {
            pub struct $Ops<$t> {
                $( $ar { $( $name { $($body)* eval($a) { $f }, partial($a, idx) { let ps: [$t; $ar] = [$($p),*]; ps[idx] }, } )* } )*
            }
        }
        dynamic_expressions::paste::paste! {
        impl TestOps for $Ops {
            type N = $t;
            fn ids() -> Vec<(u8, u16)> {
                vec![ $( $( ($ar as u8, <$Ops as HasOp<[<$Ops $name:camel>]>>::ID), )* )* ]
            }
            fn rf(op: OpId, a_: &[$t]) -> $t {
                $( $( if op.arity == $ar && op.id == <$Ops as HasOp<[<$Ops $name:camel>]>>::ID { let $a: &[$t; $ar] = a_.try_into().unwrap(); return $f; } )* )*
                panic!("harness: unknown op")
            }
            fn rp(op: OpId, a_: &[$t], idx: usize) -> $t {
                $( $( if op.arity == $ar && op.id == <$Ops as HasOp<[<$Ops $name:camel>]>>::ID { #[allow(unused)] let $a: &[$t; $ar] = a_.try_into().unwrap(); let ps: [$t; $ar] = [$($p),*]; return ps[idx]; } )* )*
                panic!("harness: unknown op")
            }
        }
        /// (arity, id, name, display, infix, commutative, associative, complexity) as declared above.
        pub fn $meta() -> Vec<(u8, u16, &'static str, &'static str, Option<&'static str>, bool, bool, u16)> {
            vec![ $( $( ($ar as u8, <$Ops as HasOp<[<$Ops $name:camel>]>>::ID, stringify!($name), $disp, $infix, $com, $assoc, $cx), )* )* ]
        }
        }
    };
}

// All arities 1..=5, declared out of order, with every attribute syntax in some order.
kit! { Kit5, f64, 5, kit5_meta;
    3 => [
        mix3 ("mix3", None, false, false, 1) {} |a| a[0] + 2.0 * a[1] - 3.0 * a[2]; 1.0, 2.0, -3.0;
        sel3 ("SEL", None, false, false, 4) { display: "SEL", complexity: 4u16, } |a| if a[0] > 0.0 { a[1] } else { a[2] }; 0.0, if a[0] > 0.0 { 1.0 } else { 0.0 }, if a[0] > 0.0 { 0.0 } else { 1.0 };
        prod3 ("prod3", Some("@"), true, true, 2) { complexity: 2u16, infix: "@", associative: true, commutative: true, } |a| a[0] * a[1] * a[2]; a[1] * a[2], a[0] * a[2], a[0] * a[1];
    ]
    1 => [
        half ("half", None, false, false, 1) {} |a| 0.5 * a[0]; 0.5;
        soft_sq ("sq~", None, false, false, 3) { display: "sq~", complexity: 3u16, } |a| a[0] * a[0] / (1.0 + a[0] * a[0]); 2.0 * a[0] / ((1.0 + a[0] * a[0]) * (1.0 + a[0] * a[0]));
        safe_log ("safe_log", None, false, false, 1) {} |a| if a[0] > 0.0 { a[0].ln() } else { f64::NAN }; 1.0 / a[0];
    ]
    5 => [
        blend5 ("blend5", None, false, false, 9) { complexity: 9u16, } |a| a[0] - 2.0 * a[1] + 4.0 * a[2] - 8.0 * a[3] + 16.0 * a[4]; 1.0, -2.0, 4.0, -8.0, 16.0;
    ]
    2 => [
        minus ("minus", Some("-"), false, false, 1) { infix: "-", } |a| a[0] - a[1]; 1.0, -1.0;
        hyp ("hyp", None, true, false, 2) { commutative: true, complexity: 2u16, } |a| (a[0] * a[0] + a[1] * a[1]).sqrt(); a[0] / (a[0] * a[0] + a[1] * a[1]).sqrt(), a[1] / (a[0] * a[0] + a[1] * a[1]).sqrt();
        left ("<|", Some("<|"), false, true, 1) { display: "<|", infix: "<|", associative: true, } |a| a[0] + 0.0 * a[1]; 1.0, 0.0;
        plus ("plus", Some("+"), true, true, 1) { infix: "+", commutative: true, associative: true, } |a| a[0] + a[1]; 1.0, 1.0;
    ]
    4 => [
        det4 ("det4", None, false, false, 1) {} |a| a[0] * a[3] - a[1] * a[2]; a[3], -a[2], -a[1], a[0];
        pick4 ("pick4", None, false, false, 7) { complexity: 7u16, } |a| a[0].max(a[1]) + a[2].min(a[3]); if a[0] > a[1] { 1.0 } else { 0.0 }, if a[0] > a[1] { 0.0 } else { 1.0 }, if a[2] < a[3] { 1.0 } else { 0.0 }, if a[2] < a[3] { 0.0 } else { 1.0 };
    ]
}

// Sparse arities (no unary, no ternary), single precision.
kit! { Kit24, f32, 4, kit24_meta;
    4 => [
        lin4 ("lin4", None, false, false, 1) {} |a| a[0] + 3.0 * a[1] + 5.0 * a[2] + 7.0 * a[3]; 1.0, 3.0, 5.0, 7.0;
        cross4 ("x4", Some("##"), false, false, 1) { infix: "##", display: "x4", } |a| a[0] * a[1] - a[2] * a[3]; a[1], a[0], -a[3], -a[2];
    ]
    2 => [
        over ("over", Some("/"), false, false, 1) { infix: "/", } |a| a[0] / a[1]; 1.0 / a[1], -a[0] / (a[1] * a[1]);
        sub2 ("sub2", Some("-"), false, false, 1) { infix: "-", } |a| a[0] - 2.0 * a[1]; 1.0, -2.0;
        mul ("mul", Some("*"), true, true, 1) { commutative: true, associative: true, infix: "*", } |a| a[0] * a[1]; a[1], a[0];
    ]
}

// Exact integer arithmetic for simplification: +, *, - have ids that unary and ternary operators share.
kit! { Ints, f64, 3, ints_meta;
    1 => [
        opq ("opq", None, false, false, 1) {} |a| (a[0] * 3.0 + 7.0).rem_euclid(31.0) - 15.0; 3.0;
        flip ("flip", Some("-"), false, false, 1) { infix: "-", } |a| -a[0]; -1.0;
        clip ("clip", None, false, false, 1) {} |a| a[0].rem_euclid(17.0); 1.0;
        neg2 ("neg2", None, false, false, 1) {} |a| 5.0 - a[0].rem_euclid(13.0); -1.0;
        flip2 ("flip2", None, false, false, 1) {} |a| (11.0 - a[0]).rem_euclid(23.0); -1.0;
    ]
    2 => [
        modu ("modu", None, false, false, 1) {} |a| (a[0] - 2.0 * a[1]).rem_euclid(29.0); 1.0, -2.0;
        minus ("minus", Some("-"), false, false, 1) { infix: "-", } |a| a[0] - a[1]; 1.0, -1.0;
        times ("times", Some("*"), true, true, 1) { infix: "*", commutative: true, associative: true, } |a| a[0] * a[1]; a[1], a[0];
        plus ("plus", Some("+"), true, true, 1) { infix: "+", commutative: true, associative: true, } |a| a[0] + a[1]; 1.0, 1.0;
    ]
    3 => [
        tri ("tri", None, false, false, 1) {} |a| (a[0] + 2.0 * a[1] + 5.0 * a[2]).rem_euclid(37.0); 1.0, 2.0, 5.0;
        minus3 ("minus3", Some("~"), false, false, 1) { infix: "~", } |a| (a[0] - a[1] - a[2]).rem_euclid(41.0); 1.0, -1.0, -1.0;
        tri2 ("tri2", None, false, false, 1) {} |a| (7.0 * a[0] - a[1] + a[2]).rem_euclid(19.0); 7.0, -1.0, 1.0;
        tri3 ("tri3", None, false, false, 1) {} |a| (a[0] * 2.0 + a[1] * 3.0 - a[2]).rem_euclid(43.0); 2.0, 3.0, -1.0;
    ]
}
// Sixty operators: linear functions with distinct coefficients.
kit! { Many, f64, 2, many_meta;
    2 => [
        f2n0 ("d2_0", Some("%0%"), true, true, 1) { commutative: true, infix: "%0%", display: "d2_0", associative: true, } |a| -9.0 * a[0] + -6.0 * a[1] + 0.0; -9.0, -6.0;
        f2n1 ("f2n1", None, false, false, 1) { } |a| -1.75 * a[0] + 1.25 * a[1] + 1.0; -1.75, 1.25;
        f2n2 ("f2n2", None, false, false, 3) { complexity: 3u16, } |a| 5.5 * a[0] + 8.5 * a[1] + 2.0; 5.5, 8.5;
        f2n3 ("d2_3", None, false, false, 1) { display: "d2_3", } |a| -6.25 * a[0] + -3.25 * a[1] + 3.0; -6.25, -3.25;
        f2n4 ("f2n4", None, true, false, 1) { commutative: true, } |a| 1.0 * a[0] + 4.0 * a[1] + 4.0; 1.0, 4.0;
        f2n5 ("f2n5", Some("%5%"), false, false, 1) { infix: "%5%", } |a| 8.25 * a[0] + -7.75 * a[1] + 5.0; 8.25, -7.75;
        f2n6 ("d2_6", None, false, true, 1) { display: "d2_6", associative: true, } |a| -3.5 * a[0] + -0.5 * a[1] + 6.0; -3.5, -0.5;
        f2n7 ("f2n7", None, false, false, 1) { } |a| 3.75 * a[0] + 6.75 * a[1] + 7.0; 3.75, 6.75;
        f2n8 ("f2n8", None, true, false, 1) { commutative: true, } |a| 11.0 * a[0] + -5.0 * a[1] + 8.0; 11.0, -5.0;
        f2n9 ("d2_9", None, false, false, 10) { complexity: 10u16, display: "d2_9", } |a| -0.75 * a[0] + 2.25 * a[1] + 9.0; -0.75, 2.25;
        f2n10 ("f2n10", Some("%10%"), false, false, 1) { infix: "%10%", } |a| 6.5 * a[0] + 9.5 * a[1] + 10.0; 6.5, 9.5;
        f2n11 ("f2n11", None, false, false, 1) { } |a| -5.25 * a[0] + -2.25 * a[1] + 11.0; -5.25, -2.25;
        f2n12 ("d2_12", None, true, true, 1) { commutative: true, display: "d2_12", associative: true, } |a| 2.0 * a[0] + 5.0 * a[1] + 12.0; 2.0, 5.0;
        f2n13 ("f2n13", None, false, false, 1) { } |a| 9.25 * a[0] + 12.25 * a[1] + 13.0; 9.25, 12.25;
        f2n14 ("f2n14", None, false, false, 1) { } |a| -2.5 * a[0] + 0.5 * a[1] + 14.0; -2.5, 0.5;
        f2n15 ("d2_15", Some("%15%"), false, false, 1) { infix: "%15%", display: "d2_15", } |a| 4.75 * a[0] + 7.75 * a[1] + 15.0; 4.75, 7.75;
        f2n16 ("f2n16", None, true, false, 17) { commutative: true, complexity: 17u16, } |a| 12.0 * a[0] + -4.0 * a[1] + 16.0; 12.0, -4.0;
        f2n17 ("f2n17", None, false, false, 1) { } |a| 0.25 * a[0] + 3.25 * a[1] + 17.0; 0.25, 3.25;
        f2n18 ("d2_18", None, false, true, 1) { display: "d2_18", associative: true, } |a| 7.5 * a[0] + 10.5 * a[1] + 18.0; 7.5, 10.5;
        f2n19 ("f2n19", None, false, false, 1) { } |a| -4.25 * a[0] + -1.25 * a[1] + 19.0; -4.25, -1.25;
        f2n20 ("f2n20", Some("%20%"), true, false, 1) { commutative: true, infix: "%20%", } |a| 3.0 * a[0] + 6.0 * a[1] + 20.0; 3.0, 6.0;
        f2n21 ("d2_21", None, false, false, 1) { display: "d2_21", } |a| 10.25 * a[0] + 13.25 * a[1] + 21.0; 10.25, 13.25;
        f2n22 ("f2n22", None, false, false, 1) { } |a| -1.5 * a[0] + 1.5 * a[1] + 22.0; -1.5, 1.5;
        f2n23 ("f2n23", None, false, false, 24) { complexity: 24u16, } |a| 5.75 * a[0] + 8.75 * a[1] + 23.0; 5.75, 8.75;
        f2n24 ("d2_24", None, true, true, 1) { commutative: true, display: "d2_24", associative: true, } |a| 13.0 * a[0] + -3.0 * a[1] + 24.0; 13.0, -3.0;
        f2n25 ("f2n25", Some("%25%"), false, false, 1) { infix: "%25%", } |a| 1.25 * a[0] + 4.25 * a[1] + 25.0; 1.25, 4.25;
        f2n26 ("f2n26", None, false, false, 1) { } |a| 8.5 * a[0] + 11.5 * a[1] + 26.0; 8.5, 11.5;
        f2n27 ("d2_27", None, false, false, 1) { display: "d2_27", } |a| 15.75 * a[0] + -0.25 * a[1] + 27.0; 15.75, -0.25;
        f2n28 ("f2n28", None, true, false, 1) { commutative: true, } |a| 4.0 * a[0] + 7.0 * a[1] + 28.0; 4.0, 7.0;
        f2n29 ("f2n29", None, false, false, 1) { } |a| 11.25 * a[0] + 14.25 * a[1] + 29.0; 11.25, 14.25;
        f2n30 ("d2_30", Some("%30%"), false, true, 31) { infix: "%30%", complexity: 31u16, display: "d2_30", associative: true, } |a| -0.5 * a[0] + 2.5 * a[1] + 30.0; -0.5, 2.5;
        f2n31 ("f2n31", None, false, false, 1) { } |a| 6.75 * a[0] + 9.75 * a[1] + 31.0; 6.75, 9.75;
        f2n32 ("f2n32", None, true, false, 1) { commutative: true, } |a| 14.0 * a[0] + 17.0 * a[1] + 32.0; 14.0, 17.0;
    ]
    1 => [
        f1n0 ("d1_0", Some("%0%"), true, true, 1) { commutative: true, infix: "%0%", display: "d1_0", associative: true, } |a| -9.0 * a[0] + 0.0; -9.0;
        f1n1 ("f1n1", None, false, false, 1) { } |a| -1.75 * a[0] + 1.0; -1.75;
        f1n2 ("f1n2", None, false, false, 3) { complexity: 3u16, } |a| 5.5 * a[0] + 2.0; 5.5;
        f1n3 ("d1_3", None, false, false, 1) { display: "d1_3", } |a| -6.25 * a[0] + 3.0; -6.25;
        f1n4 ("f1n4", None, true, false, 1) { commutative: true, } |a| 1.0 * a[0] + 4.0; 1.0;
        f1n5 ("f1n5", Some("%5%"), false, false, 1) { infix: "%5%", } |a| 8.25 * a[0] + 5.0; 8.25;
        f1n6 ("d1_6", None, false, true, 1) { display: "d1_6", associative: true, } |a| -3.5 * a[0] + 6.0; -3.5;
        f1n7 ("f1n7", None, false, false, 1) { } |a| 3.75 * a[0] + 7.0; 3.75;
        f1n8 ("f1n8", None, true, false, 1) { commutative: true, } |a| 11.0 * a[0] + 8.0; 11.0;
        f1n9 ("d1_9", None, false, false, 10) { complexity: 10u16, display: "d1_9", } |a| -0.75 * a[0] + 9.0; -0.75;
        f1n10 ("f1n10", Some("%10%"), false, false, 1) { infix: "%10%", } |a| 6.5 * a[0] + 10.0; 6.5;
        f1n11 ("f1n11", None, false, false, 1) { } |a| -5.25 * a[0] + 11.0; -5.25;
        f1n12 ("d1_12", None, true, true, 1) { commutative: true, display: "d1_12", associative: true, } |a| 2.0 * a[0] + 12.0; 2.0;
        f1n13 ("f1n13", None, false, false, 1) { } |a| 9.25 * a[0] + 13.0; 9.25;
        f1n14 ("f1n14", None, false, false, 1) { } |a| -2.5 * a[0] + 14.0; -2.5;
        f1n15 ("d1_15", Some("%15%"), false, false, 1) { infix: "%15%", display: "d1_15", } |a| 4.75 * a[0] + 15.0; 4.75;
        f1n16 ("f1n16", None, true, false, 17) { commutative: true, complexity: 17u16, } |a| 12.0 * a[0] + 16.0; 12.0;
        f1n17 ("f1n17", None, false, false, 1) { } |a| 0.25 * a[0] + 17.0; 0.25;
        f1n18 ("d1_18", None, false, true, 1) { display: "d1_18", associative: true, } |a| 7.5 * a[0] + 18.0; 7.5;
        f1n19 ("f1n19", None, false, false, 1) { } |a| -4.25 * a[0] + 19.0; -4.25;
        f1n20 ("f1n20", Some("%20%"), true, false, 1) { commutative: true, infix: "%20%", } |a| 3.0 * a[0] + 20.0; 3.0;
        f1n21 ("d1_21", None, false, false, 1) { display: "d1_21", } |a| 10.25 * a[0] + 21.0; 10.25;
        f1n22 ("f1n22", None, false, false, 1) { } |a| -1.5 * a[0] + 22.0; -1.5;
        f1n23 ("f1n23", None, false, false, 24) { complexity: 24u16, } |a| 5.75 * a[0] + 23.0; 5.75;
        f1n24 ("d1_24", None, true, true, 1) { commutative: true, display: "d1_24", associative: true, } |a| 13.0 * a[0] + 24.0; 13.0;
        f1n25 ("f1n25", Some("%25%"), false, false, 1) { infix: "%25%", } |a| 1.25 * a[0] + 25.0; 1.25;
        f1n26 ("f1n26", None, false, false, 1) { } |a| 8.5 * a[0] + 26.0; 8.5;
    ]
}

// The same symbols within an arity and across arities, as display names and as infix symbols.
kit! { Echo, f64, 3, echo_meta;
    1 => [
        flip ("~", None, false, false, 1) { display: "~", } |a| -a[0]; -1.0;
        root ("!", Some("~"), false, false, 2) { display: "!", infix: "~", complexity: 2u16, } |a| a[0].abs().sqrt(); 0.5 / a[0].abs().sqrt();
        dot ("dot", None, false, false, 1) {} |a| 2.0 * a[0]; 2.0;
    ]
    2 => [
        dist ("~", None, true, false, 1) { display: "~", commutative: true, } |a| (a[0] - a[1]).abs(); 1.0, -1.0;
        wrap ("!", Some("~"), false, false, 1) { display: "!", infix: "~", } |a| a[0] + 2.0 * a[1]; 1.0, 2.0;
        join ("dot", Some("."), false, true, 3) { display: "dot", infix: ".", associative: true, complexity: 3u16, } |a| a[0] * a[1]; a[1], a[0];
    ]
    3 => [
        mid ("~", None, false, false, 1) { display: "~", } |a| a[0] + a[1] - a[2]; 1.0, 1.0, -1.0;
        dots ("dots", Some("."), false, false, 1) { infix: ".", } |a| a[0] * a[1] + a[2]; a[1], a[0], 1.0;
    ]
}
