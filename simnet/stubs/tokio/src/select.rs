//! `select!`: waits on up to four branches; which of several ready ones wins is the simulator's choice.
#[doc(hidden)]
pub fn __first(biased: bool, n: usize) -> usize { if biased || !simcore::inside() { 0 } else { simcore::choose(n) } }
#[doc(hidden)]
pub enum __Out<A, B, C, D> { A(A), B(B), C(C), D(D), None }
#[macro_export]
macro_rules! select {
    (biased; $($t:tt)*) => { $crate::select!(@p true [] $($t)*) };
    (@p $b:tt [$($d:tt)*] else => $e:expr $(,)?) => { $crate::select!(@run $b [$e] $($d)*) };
    (@p $b:tt [$($d:tt)*]) => { $crate::select!(@run $b [panic!("all branches are disabled and there is no else branch")] $($d)*) };
    (@p $b:tt [$($d:tt)*] $p:pat = $f:expr, if $c:expr => $h:block, $($r:tt)*) => { $crate::select!(@p $b [$($d)* {($p) ($f) ($c) ($h)}] $($r)*) };
    (@p $b:tt [$($d:tt)*] $p:pat = $f:expr, if $c:expr => $h:block $($r:tt)*) => { $crate::select!(@p $b [$($d)* {($p) ($f) ($c) ($h)}] $($r)*) };
    (@p $b:tt [$($d:tt)*] $p:pat = $f:expr, if $c:expr => $h:expr) => { $crate::select!(@p $b [$($d)* {($p) ($f) ($c) ($h)}]) };
    (@p $b:tt [$($d:tt)*] $p:pat = $f:expr, if $c:expr => $h:expr, $($r:tt)*) => { $crate::select!(@p $b [$($d)* {($p) ($f) ($c) ($h)}] $($r)*) };
    (@p $b:tt [$($d:tt)*] $p:pat = $f:expr => $h:block, $($r:tt)*) => { $crate::select!(@p $b [$($d)* {($p) ($f) (true) ($h)}] $($r)*) };
    (@p $b:tt [$($d:tt)*] $p:pat = $f:expr => $h:block $($r:tt)*) => { $crate::select!(@p $b [$($d)* {($p) ($f) (true) ($h)}] $($r)*) };
    (@p $b:tt [$($d:tt)*] $p:pat = $f:expr => $h:expr) => { $crate::select!(@p $b [$($d)* {($p) ($f) (true) ($h)}]) };
    (@p $b:tt [$($d:tt)*] $p:pat = $f:expr => $h:expr, $($r:tt)*) => { $crate::select!(@p $b [$($d)* {($p) ($f) (true) ($h)}] $($r)*) };
    (@run $b:tt [$e:expr] {$($x:tt)*}) => { $crate::select!(@four $b [$e] 1 {$($x)*} {(_) ($crate::__never()) (false) (unreachable!())} {(_) ($crate::__never()) (false) (unreachable!())} {(_) ($crate::__never()) (false) (unreachable!())}) };
    (@run $b:tt [$e:expr] {$($x:tt)*} {$($y:tt)*}) => { $crate::select!(@four $b [$e] 2 {$($x)*} {$($y)*} {(_) ($crate::__never()) (false) (unreachable!())} {(_) ($crate::__never()) (false) (unreachable!())}) };
    (@run $b:tt [$e:expr] {$($x:tt)*} {$($y:tt)*} {$($z:tt)*}) => { $crate::select!(@four $b [$e] 3 {$($x)*} {$($y)*} {$($z)*} {(_) ($crate::__never()) (false) (unreachable!())}) };
    (@run $b:tt [$e:expr] {$($x:tt)*} {$($y:tt)*} {$($z:tt)*} {$($w:tt)*}) => { $crate::select!(@four $b [$e] 4 {$($x)*} {$($y)*} {$($z)*} {$($w)*}) };
    (@four $b:tt [$e:expr] $n:tt {($pa:pat) ($fa:expr) ($ca:expr) ($ha:expr)} {($pb:pat) ($fb:expr) ($cb:expr) ($hb:expr)} {($pc:pat) ($fc:expr) ($cc:expr) ($hc:expr)} {($pd:pat) ($fd:expr) ($cd:expr) ($hd:expr)}) => {{
        #[allow(unused_variables, unreachable_patterns, unreachable_code)]
        let __out = {
            let mut __on = [$ca, $cb, $cc, $cd];
            let mut __fa = std::pin::pin!(std::future::IntoFuture::into_future($fa));
            let mut __fb = std::pin::pin!(std::future::IntoFuture::into_future($fb));
            let mut __fc = std::pin::pin!(std::future::IntoFuture::into_future($fc));
            let mut __fd = std::pin::pin!(std::future::IntoFuture::into_future($fd));
            std::future::poll_fn(|__cx| {
                use std::future::Future;
                let __s = $crate::__first($b, $n);
                for __i in 0..$n {
                    match (__i + __s) % $n {
                        0 if __on[0] => if let std::task::Poll::Ready(v) = __fa.as_mut().poll(__cx) { __on[0] = false; if matches!(&v, $pa) { return std::task::Poll::Ready($crate::__Out::A(v)) } },
                        1 if __on[1] => if let std::task::Poll::Ready(v) = __fb.as_mut().poll(__cx) { __on[1] = false; if matches!(&v, $pb) { return std::task::Poll::Ready($crate::__Out::B(v)) } },
                        2 if __on[2] => if let std::task::Poll::Ready(v) = __fc.as_mut().poll(__cx) { __on[2] = false; if matches!(&v, $pc) { return std::task::Poll::Ready($crate::__Out::C(v)) } },
                        3 if __on[3] => if let std::task::Poll::Ready(v) = __fd.as_mut().poll(__cx) { __on[3] = false; if matches!(&v, $pd) { return std::task::Poll::Ready($crate::__Out::D(v)) } },
                        _ => (),
                    }
                }
                if __on.iter().any(|x| *x) { std::task::Poll::Pending } else { std::task::Poll::Ready($crate::__Out::None) }
            }).await
        };
        #[allow(unreachable_patterns, unreachable_code)]
        match __out {
            $crate::__Out::A($pa) => $ha,
            $crate::__Out::B($pb) => $hb,
            $crate::__Out::C($pc) => $hc,
            $crate::__Out::D($pd) => $hd,
            _ => $e,
        }
    }};
    ($($t:tt)*) => { $crate::select!(@p false [] $($t)*) };
}
