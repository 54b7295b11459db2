//! C01: the offered plays are exactly the legal ones.
use die_e::base::LearnableGame;
use std::collections::{BTreeMap, BTreeSet};
use vh::bg::*;
use vh::{ensure, gen, glue, sut, Obs, Prop, Res};

/// All plays by the rules, including each order of the steps.
fn check(p: &Pos, o: &mut Obs) -> Res {
    let g = glue::bgame(p);
    let offered = sut("get_valid_moves", || g.get_valid_moves())?;
    let legal = p.legal();
    let legal_seqs: BTreeSet<&Play> = legal.iter().map(|x| &x.0).collect();
    let wanted: BTreeMap<RawBoard, Play> = p.results();
    let mut reached: BTreeMap<RawBoard, &Play> = BTreeMap::new();
    for pl in &offered {
        ensure!(!pl.is_empty(), "empty-play-offered", "an empty play is offered in {:?}", p);
        if !legal_seqs.contains(pl) {
            // which rule is broken?
            let m = legal.iter().map(|x| x.0.len()).max().unwrap_or(0);
            let why = if m > pl.len() { "fewer dice than possible" } else { "a step the rules do not allow" };
            return vh::fail("illegal-play-offered", format!("{:?} offered in {:?}: {}", pl, p, why));
        }
        let b = apply_notation(&p.board, pl, p.player);
        if let Some(other) = reached.insert(b, pl) {
            return vh::fail("duplicate-result", format!("{:?} and {:?} lead to the same position in {:?}", other, pl, p));
        }
    }
    for (b, pl) in &wanted {
        ensure!(reached.contains_key(b), "legal-play-missing", "{:?} is legal but no offered play reaches its result in {:?}; offered {:?}", pl, p, offered);
    }
    // order of the dice, flag and tag do not matter
    let mut h = g;
    h.roll = (g.roll.1, g.roll.0);
    h.id = 77;
    let swapped = sut("get_valid_moves", || h.get_valid_moves())?;
    let res = |v: &Vec<Play>| v.iter().map(|q| apply_notation(&p.board, q, p.player)).collect::<BTreeSet<_>>();
    ensure!(res(&swapped) == res(&offered) && swapped.len() == offered.len(), "dice-order", "swapping the dice changes the plays in {:?}: {:?} / {:?}", p, offered, swapped);

    let (me, op) = sides(&p.board, p.player);
    for d in gen::describe(p) {
        o.class(d);
    }
    let max = legal.iter().map(|x| x.0.len()).max().unwrap_or(0);
    o.class(match max { 0 => "nothing playable", 1 => "one die playable", _ => "both dice playable" });
    if max == 2 && maximal_sequences(&p.board, p.roll, p.player).iter().any(|s| s.0.len() == 1) {
        o.class("both playable, but not from every first step");
    }
    let bears = legal.iter().any(|x| x.0.iter().any(|s| s.1 == -1));
    if bears {
        o.class("a play bears off");
        if legal.iter().any(|x| x.0.iter().any(|s| s.1 == -1 && s.0 != -1 && { let d = if p.player == -1 { s.0 + 1 } else { 24 - s.0 } as u8; d != p.roll.0 && d != p.roll.1 })) {
            o.class("bearing off the rearmost with a higher die");
        }
    }
    let blocked = (1..=24).any(|d| op.n[d] >= 2);
    if wanted.len() >= 2 || me.n[25] > 0 || bears || (max < 2 && blocked) {
        o.nontrivial(p);
    }
    o.sample(|| format!("{:?} -> {} plays, e.g. {:?}", p, offered.len(), offered.first()));
    Ok(())
}

fn main() {
    let mut p = Prop::new("C01", "distinct positions with at least two different results, a checker on the bar, a play that bears off, or a die that cannot be played because of blocked points")
        .assume("the reference move generator in harness/src/bg.rs states the rules of the property");
    p.family("constructed", (60_000, 4_000_000), gen::constructed(), check);
    p.family("reachable", (16_000, 600_000), gen::reachable(150), check);
    p.finish()
}
