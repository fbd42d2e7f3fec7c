//! Iterator call scripts: the same script drives the real iterator and `slice::Iter` (the reference).
use crate::model::Vals;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Next,
    Back,
    Nth(usize),
    NthBack(usize),
    Hint,
    Len,
    ByRefTake(usize),
    ByRefTakeRev(usize),
    TryFold(usize),
    TryRfold(usize),
    Position(usize),
    Rposition(usize),
    Find(usize),
    Rfind(usize),
    Any(usize),
    All(usize),
    // terminal
    Count,
    Last,
    Collect,
    RevCollect,
    Fold,
    Rfold,
    ForEach,
    RevForEach,
    SkipCollect(usize),
    RevSkipCollect(usize),
    StepBy(usize),
    RevStepBy(usize),
    TakeCollect(usize),
    SkipTakeRev(usize, usize),
    Peekable,
    Enumerate,
    RevEnumerate,
    EnumerateRev,
    ZipRange(usize),
    ZipRev(usize),
    ChainOnce,
    Reduce,
    Drop,
}
pub fn terminal(op: &Op) -> bool {
    use Op::*;
    matches!(
        op,
        Count | Last | Collect | RevCollect | Fold | Rfold | ForEach | RevForEach | SkipCollect(_) | RevSkipCollect(_)
            | StepBy(_) | RevStepBy(_) | TakeCollect(_) | SkipTakeRev(..) | Peekable | Enumerate | RevEnumerate
            | EnumerateRev | ZipRange(_) | ZipRev(_) | ChainOnce | Reduce | Drop
    )
}
pub fn needs_back(op: &Op) -> bool {
    use Op::*;
    matches!(
        op,
        Back | NthBack(_) | Len | ByRefTakeRev(_) | TryRfold(_) | Rposition(_) | Rfind(_) | RevCollect | Rfold | RevForEach
            | RevSkipCollect(_) | RevStepBy(_) | SkipTakeRev(..) | RevEnumerate | EnumerateRev | ZipRev(_)
    )
}

#[derive(Clone, Debug, PartialEq)]
pub enum Obs {
    One(Option<Vals>),
    Many(Vec<Vals>),
    Num(Option<usize>),
    Hint(usize, Option<usize>),
    Flag(bool),
}

/// The iterator yields points; `conv` turns a point into its raw bits.
/// `limit` bounds every collecting loop so that an iterator that never ends is observed, not waited for.
pub fn front_op<I: Iterator>(it: &mut I, op: &Op, conv: &dyn Fn(I::Item) -> Vals, obs: &mut Vec<Obs>) -> bool {
    match op {
        Op::Next => obs.push(Obs::One(it.next().map(conv))),
        Op::Nth(k) => obs.push(Obs::One(it.nth(*k).map(conv))),
        Op::Hint => {
            let (a, b) = it.size_hint();
            obs.push(Obs::Hint(a, b))
        }
        Op::ByRefTake(k) => obs.push(Obs::Many(it.by_ref().take(*k).map(conv).collect())),
        Op::TryFold(k) => {
            let mut seen = vec![];
            let r: Result<(), ()> = it.try_fold((), |(), x| {
                seen.push(conv(x));
                if seen.len() > *k {
                    Err(())
                } else {
                    Ok(())
                }
            });
            obs.push(Obs::Many(seen));
            obs.push(Obs::Flag(r.is_ok()));
        }
        Op::Position(k) => {
            let mut c = 0;
            let r = it.position(|_| {
                c += 1;
                c > *k
            });
            obs.push(Obs::Num(r));
        }
        Op::Find(k) => {
            let mut c = 0;
            let r = it.find(|_| {
                c += 1;
                c > *k
            });
            obs.push(Obs::One(r.map(conv)));
        }
        Op::Any(k) => {
            let mut c = 0;
            let r = it.any(|_| {
                c += 1;
                c > *k
            });
            obs.push(Obs::Flag(r));
        }
        Op::All(k) => {
            let mut c = 0;
            let r = it.all(|_| {
                c += 1;
                c <= *k
            });
            obs.push(Obs::Flag(r));
        }
        _ => return false,
    }
    true
}
pub fn front_terminal<I: Iterator>(it: I, op: &Op, conv: &dyn Fn(I::Item) -> Vals, obs: &mut Vec<Obs>) -> Option<I> {
    match op {
        Op::Count => obs.push(Obs::Num(Some(it.count()))),
        Op::Last => obs.push(Obs::One(it.last().map(conv))),
        Op::Collect => obs.push(Obs::Many(it.collect::<Vec<_>>().into_iter().map(conv).collect())),
        Op::Fold => obs.push(Obs::Many(it.fold(vec![], |mut a, x| {
            a.push(conv(x));
            a
        }))),
        Op::ForEach => {
            let mut a = vec![];
            it.for_each(|x| a.push(conv(x)));
            obs.push(Obs::Many(a))
        }
        Op::SkipCollect(k) => obs.push(Obs::Many(it.skip(*k).map(conv).collect())),
        Op::StepBy(k) => obs.push(Obs::Many(it.step_by(k + 1).map(conv).collect())),
        Op::TakeCollect(k) => obs.push(Obs::Many(it.take(*k).map(conv).collect())),
        Op::Peekable => {
            let mut p = it.peekable();
            let mut a = vec![];
            while p.peek().is_some() {
                if let Some(x) = p.next() {
                    a.push(conv(x));
                }
            }
            let again = p.next().is_none();
            obs.push(Obs::Many(a));
            obs.push(Obs::Flag(again));
        }
        Op::Enumerate => {
            let (i, a): (Vec<usize>, Vec<Vals>) = it.enumerate().map(|(i, x)| (i, conv(x))).unzip();
            obs.push(Obs::Flag(i.iter().enumerate().all(|(k, v)| k == *v)));
            obs.push(Obs::Many(a));
        }
        Op::ZipRange(k) => {
            let (i, a): (Vec<usize>, Vec<Vals>) = (0..*k).zip(it).map(|(i, x)| (i, conv(x))).unzip();
            obs.push(Obs::Num(i.last().copied()));
            obs.push(Obs::Many(a));
        }
        Op::ChainOnce => {
            // the hint of an adaptor built on top must stay exact as well
            let c = it.map(conv).chain(std::iter::once([0xC0FFEE; crate::model::MAXF]));
            let (lo, hi) = c.size_hint();
            obs.push(Obs::Hint(lo, hi));
            obs.push(Obs::Many(c.collect()));
        }
        Op::Reduce => {
            let mut n = 0usize;
            let r = it.reduce(|_, b| {
                n += 1;
                b
            });
            obs.push(Obs::One(r.map(conv)));
            obs.push(Obs::Num(Some(n)));
        }
        Op::Drop => drop(it),
        _ => return Some(it),
    }
    None
}
pub fn back_op<I: DoubleEndedIterator + ExactSizeIterator>(it: &mut I, op: &Op, conv: &dyn Fn(I::Item) -> Vals, obs: &mut Vec<Obs>) -> bool {
    match op {
        Op::Back => obs.push(Obs::One(it.next_back().map(conv))),
        Op::NthBack(k) => obs.push(Obs::One(it.nth_back(*k).map(conv))),
        Op::Len => obs.push(Obs::Num(Some(ExactSizeIterator::len(it)))),
        Op::ByRefTakeRev(k) => obs.push(Obs::Many(it.by_ref().rev().take(*k).map(conv).collect())),
        Op::TryRfold(k) => {
            let mut seen = vec![];
            let r: Result<(), ()> = it.try_rfold((), |(), x| {
                seen.push(conv(x));
                if seen.len() > *k {
                    Err(())
                } else {
                    Ok(())
                }
            });
            obs.push(Obs::Many(seen));
            obs.push(Obs::Flag(r.is_ok()));
        }
        Op::Rposition(k) => {
            let mut c = 0;
            let r = it.rposition(|_| {
                c += 1;
                c > *k
            });
            obs.push(Obs::Num(r));
        }
        Op::Rfind(k) => {
            let mut c = 0;
            let r = it.rfind(|_| {
                c += 1;
                c > *k
            });
            obs.push(Obs::One(r.map(conv)));
        }
        _ => return false,
    }
    true
}
pub fn back_terminal<I: DoubleEndedIterator + ExactSizeIterator>(it: I, op: &Op, conv: &dyn Fn(I::Item) -> Vals, obs: &mut Vec<Obs>) -> Option<I> {
    match op {
        Op::RevCollect => obs.push(Obs::Many(it.rev().collect::<Vec<_>>().into_iter().map(conv).collect())),
        Op::Rfold => obs.push(Obs::Many(it.rfold(vec![], |mut a, x| {
            a.push(conv(x));
            a
        }))),
        Op::RevForEach => {
            let mut a = vec![];
            it.rev().for_each(|x| a.push(conv(x)));
            obs.push(Obs::Many(a))
        }
        Op::RevSkipCollect(k) => obs.push(Obs::Many(it.rev().skip(*k).map(conv).collect())),
        Op::RevStepBy(k) => obs.push(Obs::Many(it.rev().step_by(k + 1).map(conv).collect())),
        Op::SkipTakeRev(s, t) => obs.push(Obs::Many(it.skip(*s).take(*t).rev().map(conv).collect())),
        Op::RevEnumerate => {
            let (i, a): (Vec<usize>, Vec<Vals>) = it.rev().enumerate().map(|(i, x)| (i, conv(x))).unzip();
            obs.push(Obs::Num(i.last().copied()));
            obs.push(Obs::Many(a));
        }
        Op::EnumerateRev => {
            let (i, a): (Vec<usize>, Vec<Vals>) = it.enumerate().rev().map(|(i, x)| (i, conv(x))).unzip();
            obs.push(Obs::Num(i.first().copied()));
            obs.push(Obs::Num(i.last().copied()));
            obs.push(Obs::Many(a));
        }
        Op::ZipRev(k) => {
            let (i, a): (Vec<usize>, Vec<Vals>) = (0..*k).zip(it).rev().map(|(i, x)| (i, conv(x))).unzip();
            obs.push(Obs::Num(i.first().copied()));
            obs.push(Obs::Many(a));
        }
        _ => return Some(it),
    }
    None
}

/// Run a script over a double-ended iterator.
pub fn run_back<I: DoubleEndedIterator + ExactSizeIterator>(mut it: I, ops: &[Op], conv: &dyn Fn(I::Item) -> Vals, obs: &mut Vec<Obs>) {
    for op in ops {
        if terminal(op) {
            if let Some(it) = front_terminal(it, op, conv, obs) {
                back_terminal(it, op, conv, obs);
            }
            return;
        }
        let _ = front_op(&mut it, op, conv, obs) || back_op(&mut it, op, conv, obs);
    }
}
/// Run a script that only uses the front.
pub fn run_front<I: Iterator>(mut it: I, ops: &[Op], conv: &dyn Fn(I::Item) -> Vals, obs: &mut Vec<Obs>) {
    for op in ops {
        if terminal(op) {
            front_terminal(it, op, conv, obs);
            return;
        }
        front_op(&mut it, op, conv, obs);
    }
}
