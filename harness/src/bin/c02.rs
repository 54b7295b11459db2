//! C02: applying plays follows the rules and keeps 15 checkers a side.
use die_e::backgammon::backgammon_logic::Backgammon;
use die_e::base::LearnableGame;
use proptest::collection::vec;
use proptest::prelude::*;
use std::collections::BTreeSet;
use vh::bg::*;
use vh::gen::Choice;
use vh::{ensure, gen, glue, sut, Obs, Prop, Res};

fn one(p: &Pos, play: &Play, want: &RawBoard, id: usize, o: &mut Obs) -> Res {
    o.eval();
    let got = sut("get_next_state", || Backgammon::get_next_state(p.board, play, p.player))?;
    ensure!(got == *want, "wrong-result", "get_next_state of {:?} in {:?} gives {:?}, the rules give {:?}", play, p, got, want);
    let mut g = glue::bgame(p);
    g.id = id;
    sut("apply_move", || g.apply_move(play))?;
    ensure!(g.board == *want, "wrong-result", "apply_move of {:?} in {:?} gives {:?}, the rules give {:?}", play, p, g.board, want);
    ensure!(g.id == id && g.get_id() == id, "tag-changed", "apply_move of {:?} in {:?} changes the tag {} to {}", play, p, id, g.id);
    ensure!(glue::conserved(&g.board), "checkers", "{:?} in {:?} leaves {:?}", play, p, g.board);
    // the crate's own validity check agrees
    sut("is_valid", || g.is_valid())?;
    Ok(())
}

fn single(c: &(Pos, u16), o: &mut Obs) -> Res {
    let (p, id) = c;
    let mut seen: BTreeSet<Play> = BTreeSet::new();
    let (mut hits, mut offs, mut entries, mut n) = (0, 0, 0, 0);
    for (play, want) in p.legal() {
        if !seen.insert(play.clone()) {
            continue;
        }
        n += 1;
        if n <= 60 || (n * 7 + *id as usize) % 11 == 0 {
            one(p, &play, &want, *id as usize, o)?;
        }
        let (_, op0) = sides(&p.board, p.player);
        let (_, op1) = sides(&want, p.player);
        hits += (op1.n[25] > op0.n[25]) as u32;
        offs += play.iter().any(|s| s.1 == -1) as u32;
        entries += play.iter().any(|s| s.0 == -1) as u32;
        // every single step on its own
        if n <= 12 {
            let mut b = p.board;
            for s in &play {
                let w = apply_notation(&b, &vec![*s], p.player);
                let got = sut("get_next_state", || Backgammon::get_next_state(b, &vec![*s], p.player))?;
                ensure!(got == w, "wrong-result", "step {:?} on {:?} gives {:?}, the rules give {:?}", s, b, got, w);
                b = w;
            }
        }
    }
    // an empty play and a pass leave the board alone
    let got = sut("get_next_state", || Backgammon::get_next_state(p.board, &vec![], p.player))?;
    ensure!(got == p.board, "wrong-result", "the empty play changes {:?} to {:?}", p, got);
    let mut g = glue::bgame(p);
    g.id = *id as usize;
    sut("skip_turn", || g.skip_turn())?;
    ensure!(g.board == p.board && g.id == *id as usize, "wrong-result", "a pass changes {:?} to {:?}", p, g);
    o.class_if(hits > 0, "a play hits");
    o.class_if(offs > 0, "a play bears off");
    o.class_if(entries > 0, "a play enters from the bar");
    o.class_if(hits > 0 && entries > 0, "entering and hitting");
    o.class_if(n == 0, "no play");
    if hits + offs + entries > 0 {
        o.nontrivial(p);
    }
    o.sample(|| format!("{:?}: {} legal plays applied ({} hit, {} bear off, {} enter)", p, n, hits, offs, entries));
    Ok(())
}

/// A whole game on one engine object; plays are those of the rules, the engine applies them.
fn game(c: &(i8, (u8, u8), Vec<Choice>, gen::Taste, gen::Taste, u16), o: &mut Obs) -> Res {
    let (player, roll, choices, ta, tb, id) = c;
    let mut g = Backgammon::new();
    ensure!(g.board == START && Backgammon::get_initial_state() == START, "start", "the starting position is {:?}", g.board);
    g.player = *player;
    g.roll = *roll;
    sut("set_id", || g.set_id(*id as usize))?;
    let mut hits = 0;
    for ch in choices {
        let p = glue::pos_of(&g);
        if winner(&p.board).is_some() {
            break;
        }
        o.eval();
        match gen::select(&p, ch, if p.player == -1 { *ta } else { *tb }) {
            Some((play, want)) => {
                sut("apply_move", || g.apply_move(&play))?;
                ensure!(g.board == want, "wrong-result", "apply_move of {:?} in {:?} gives {:?}, the rules give {:?}", play, p, g.board, want);
                hits += ((want.1 .0 + want.1 .1) > (p.board.1 .0 + p.board.1 .1)) as u32;
            }
            None => {
                sut("skip_turn", || g.skip_turn())?;
                ensure!(g.board == p.board, "wrong-result", "a pass changes {:?} to {:?}", p, g.board);
            }
        }
        ensure!(glue::conserved(&g.board), "checkers", "after {:?}: {:?}", p, g.board);
        ensure!(g.get_id() == *id as usize, "tag-changed", "tag {} became {}", id, g.get_id());
        // the game goes on with generated dice
        g.roll = if g.is_second_play { g.roll } else { ch.dice };
    }
    let done = winner(&g.board).is_some();
    o.class_if(done, "game played to the end");
    o.class_if(hits > 3, "more than three hits");
    if hits > 0 {
        o.nontrivial(g.board);
    }
    o.sample(|| format!("{} choices, {} hits, ends at {:?}", choices.len(), hits, g.board));
    Ok(())
}

fn main() {
    let mut p = Prop::new("C02", "distinct positions with a legal play that hits, enters or bears off; games with a hit")
        .assume("the reference move generator and step function in harness/src/bg.rs state the rules");
    p.family("plays", (24_000, 1_500_000), (gen::position(), any::<u16>()), single);
    p.family(
        "games",
        (1_600, 100_000),
        (prop_oneof![Just(-1i8), Just(1i8)], gen::dice(), vec(gen::choice(), 0..260), gen::taste(), gen::taste(), any::<u16>()),
        game,
    );
    p.finish()
}
