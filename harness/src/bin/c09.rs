//! C09: the text display shows the position exactly; a reader recovers it.
use die_e::base::LearnableGame;
use proptest::prelude::*;
use vh::bg::*;
use vh::ttt::TPos;
use vh::{ensure, gen, glue, sut, Obs, Prop, Res};

#[derive(Debug, PartialEq)]
struct Read {
    points: [i8; 24],
    bar: (u8, u8),
    off: (u8, u8),
    roll: (u8, u8),
    player: i8,
}

fn number_after(text: &str, key: &str, from: usize) -> Option<(u8, usize)> {
    let i = text[from..].find(key)? + from + key.len();
    let digits: String = text[i..].trim_start().chars().take_while(|c| c.is_ascii_digit()).collect();
    digits.parse().ok().map(|n| (n, i))
}

/// Reads the display the way a user does: columns are tab separated, each column is headed by its point.
fn read(text: &str) -> Result<Read, String> {
    let turn = text.find("Current turn:").ok_or("no turn")?;
    let player = match number_after(text, "Player", turn).ok_or("no player")?.0 {
        1 => -1,
        2 => 1,
        n => return Err(format!("player {}", n)),
    };
    let r = text.find("Roll:").ok_or("no roll")?;
    let a = number_after(text, "(", r).ok_or("no dice")?;
    let b = number_after(text, ",", a.1).ok_or("no dice")?;
    let mut bar = (0, 0);
    let mut off = (0, 0);
    let p1 = text.find("Player 1:\n").ok_or("no player 1 block")?;
    let p2 = text.find("Player 2:\n").ok_or("no player 2 block")?;
    bar.0 = number_after(text, "Broken Pieces:", p1).ok_or("no bar")?.0;
    off.0 = number_after(text, "Pieces Collected:", p1).ok_or("no off")?.0;
    bar.1 = number_after(text, "Broken Pieces:", p2).ok_or("no bar")?.0;
    off.1 = number_after(text, "Pieces Collected:", p2).ok_or("no off")?.0;
    let grid: Vec<Vec<&str>> = text
        .lines()
        .filter(|l| l.starts_with('|'))
        .map(|l| l.split('\t').filter(|c| *c != "|").collect())
        .collect();
    let n = grid.len();
    if n < 4 || grid.iter().any(|r| r.len() != 12) {
        return Err(format!("unexpected board of {} rows {:?}", n, grid.iter().map(|r| r.len()).collect::<Vec<_>>()));
    }
    let mut points = [99i8; 24];
    let head = |r: &Vec<&str>| r.iter().map(|c| c.trim().parse::<usize>().map_err(|_| format!("heading {:?}", c))).collect::<Result<Vec<_>, _>>();
    let top = head(&grid[0])?;
    let bottom = head(&grid[n - 1])?;
    // stacks grow from the heading towards the middle
    for (heads, rows) in [(top, (1..n - 1).collect::<Vec<_>>()), (bottom, (1..n - 1).rev().collect::<Vec<_>>())] {
        for (col, point) in heads.iter().enumerate() {
            let (mut count, mut owner) = (0i8, 0i8);
            for r in &rows {
                let cell = grid[*r][col].trim();
                match cell {
                    "" => break,
                    "x" | "o" => {
                        let w = if cell == "x" { -1 } else { 1 };
                        if owner != 0 && owner != w {
                            return Err(format!("mixed owners on point {}", point));
                        }
                        owner = w;
                        count += 1;
                        if count > 5 {
                            return Err(format!("more than five checkers drawn one by one on point {}", point));
                        }
                    }
                    c => {
                        let k: i8 = c.trim_start_matches('+').parse().map_err(|_| format!("cell {:?}", c))?;
                        count += k;
                        break;
                    }
                }
            }
            if *point > 23 || points[*point] != 99 {
                return Err(format!("point {} headed twice", point));
            }
            points[*point] = count * owner;
        }
    }
    Ok(Read { points, bar, off, roll: (a.0, b.0), player })
}

fn backgammon(p: &Pos, o: &mut Obs) -> Res {
    let g = glue::bgame(p);
    let t = sut("to_pretty_str", || g.to_pretty_str())?;
    ensure!(glue::pos_of(&g) == *p, "impure", "displaying changed {:?}", p);
    let want = Read { points: p.board.0, bar: p.board.1, off: p.board.2, roll: p.roll, player: p.player };
    match read(&t) {
        Ok(r) => ensure!(r == want, "display", "the display of {:?} reads as {:?}", p, r),
        Err(e) => return vh::fail("unreadable", format!("the display of {:?} cannot be read: {}", p, e)),
    }
    let tall = p.board.0.iter().any(|x| x.abs() > 5);
    o.class_if(tall, "stack of more than five");
    o.class_if(p.board.0.iter().any(|x| x.abs() >= 10), "stack of ten or more");
    o.class_if(p.board.1 != (0, 0), "checker on the bar");
    o.class_if(p.board.2 != (0, 0), "checkers borne off");
    if p.board != START {
        o.nontrivial(p);
    }
    o.sample(|| t.replace('\n', " / ").replace('\t', " "));
    Ok(())
}

fn tictactoe(c: &(u32, bool), o: &mut Obs) -> Res {
    let p = TPos::from_index(c.0 % 19683, if c.1 { 1 } else { -1 });
    let g = glue::tgame(&p);
    let t = sut("to_pretty_str", || g.to_pretty_str())?;
    let cells: Vec<Vec<i8>> = t.lines().map(|l| l.split('|').map(|c| c.trim().parse::<i8>().unwrap_or(99)).collect()).collect();
    ensure!(cells.len() == 3 && cells.iter().all(|r| r.len() == 3), "shape", "the display of {:?} is {:?}", p, t);
    for i in 0..9 {
        ensure!(cells[i / 3][i % 3] == p.board[i], "display", "cell {} of {:?} is displayed as {}", i, p, cells[i / 3][i % 3]);
    }
    o.class("tic-tac-toe");
    o.nontrivial(p);
    Ok(())
}

fn main() {
    let mut p = Prop::new("C09", "distinct positions other than the start");
    p.family("backgammon", (24_000, 1_000_000), gen::position(), backgammon);
    p.family("tictactoe", (20_000, 200_000), (0u32..19683, any::<bool>()), tictactoe);
    p.finish()
}
