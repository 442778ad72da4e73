//! Real items that are named like the synthetic root: they are items like any other.
use crate::engine::*;
use crate::model::*;
use crate::report::*;
use crate::suite::Ana;

const ROOT: &str = "<meta root>";
/// As wide and sorted alike among the other names.
const PLAIN: &str = "<META ROOT>";

/// `anas` makes the analyses for a given name of the item in question.
pub fn root_named<F>(anas: F) -> Family
where
    F: Fn(&str) -> Vec<Ana> + Sync + Send + 'static,
{
    fam(
        "root-look-alike",
        "all digraphs with self loops on 1..3 items, all root sets; one item, of every kind, is named like the synthetic root: every report is the one for another name of that length, with the name replaced",
        move |ch, c| {
            let n = ch.range(1, 3);
            let who = ch.pick(n);
            let kind = *ch.of(&[K::Code, K::Data, K::Misc]);
            let mut s = any_graph(ch, n, n < 3, false);
            s.sizes = (0..n).map(|i| [4, 1, 4][i]).collect();
            s.total = s.sum() + 3;
            s.kinds[who] = kind;
            c.state((&s, who, kind as u8));
            c.sample(|| format!("{} item {} is named {}", s.show(), who, ROOT));
            c.nontrivial();
            let named = |w: &str| {
                let mut t = s.clone();
                t.names[who] = w.into();
                let mut u = t.clone();
                u.sizes.reverse();
                (t.build(), u.build())
            };
            let (mut a, mut b) = named(ROOT);
            let (mut pa, mut pb) = named(PLAIN);
            for (x, y) in anas(ROOT).iter().zip(&anas(PLAIN)) {
                for f in FMTS {
                    let got = x.text(&mut a, &mut b, f)?;
                    let want = y.text(&mut pa, &mut pb, f)?.replace(PLAIN, ROOT);
                    c.trace();
                    if got != want {
                        return Err(format!("{}\n{} -f {}\n{}\nexpected\n{}", s.show(), x.name, f.name(), got, want));
                    }
                }
            }
            Ok(())
        },
    )
}
