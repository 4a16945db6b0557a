//! C34: the command-line tool, run as a process, against the library called in this process.
use crate::engine::*;
use std::io::{Read, Write};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use wolfram_parser::fmt_as_expr::FmtAsExpr;
use wolfram_parser::*;

const FLAGS: [&str; 10] = ["-tokenize", "-leaf", "-safestring", "--cst", "--ast", "-n", "-check", "-syntaxq", "-syntaxQ", "--flatten-times"];
const WRONG: [&str; 6] = ["-ast", "--tokenize", "x", "", "-File", "--flatten-time"];
const FILES: [&[u8]; 16] = [b"", b"a+b", b"a*(b/c)\n", b"-a/b*c", b"\"s\" (*c*) 1.5\n", b"f[x_]:=x\n\n{1", b"#!sh\na", b"a\r\nb\tc", b"\xc3\xa9 \\[Alpha] \\[Foo]", b"\xff a", b"\xef\xbb\xbfa", b"a::b <<c", b")", b"  x  \n", b"a@@@b", b"{1,2,{3,\"\\n\"}}"];
const LINES: [&str; 12] = ["a+b", "", "a*b/c", "  1 \t", "f[", "\"a b\" ", "\u{e9}\u{a0}", "x;y", "#!a", "\\", "a\u{3000}b\u{3000}", "-(2/x) y"];
fn exe() -> String { std::env::var("MC_CLI").unwrap_or_else(|_| format!("{}/mc/target-cli/release/main", crate::run::root())) }
struct Dir(std::path::PathBuf);
fn dir() -> &'static Dir {
    static D: OnceLock<Dir> = OnceLock::new();
    D.get_or_init(|| {
        let d = crate::run::scratch();
        std::fs::create_dir_all(&d).unwrap();
        for (i, f) in FILES.iter().enumerate() { std::fs::write(d.join(format!("f{i}.wl")), f).unwrap() }
        Dir(d)
    })
}
/// stdout, ended normally
fn run(args: &[String], stdin: &[u8]) -> Result<(Vec<u8>, bool), String> {
    let mut c = Command::new(exe()).args(args).current_dir(&dir().0).env_clear().stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().map_err(|e| format!("{}: {e}", exe()))?;
    c.stdin.take().unwrap().write_all(stdin).ok();
    let mut out = vec![];
    let mut o = c.stdout.take().unwrap();
    o.by_ref().take(4 << 20).read_to_end(&mut out).map_err(|e| e.to_string())?;
    if out.len() >= 4 << 20 { c.kill().ok(); c.wait().ok(); return Err("the output does not end".into()) }
    let s = c.wait().map_err(|e| e.to_string())?;
    Ok((out, s.success()))
}
/// What one input gives; None: it fails.
fn result(b: &[u8], flags: &[usize]) -> Option<String> { std::panic::catch_unwind(|| call(b, flags)).ok().flatten() }
fn call(b: &[u8], flags: &[usize]) -> Option<String> {
    let (mut api, mut print, mut o) = (5, true, ParseOptions::default());
    for &f in flags { match f { 0..=4 => api = f, 5..=8 => print = false, _ => o.quirk_settings.flatten_times = true } }
    let p = |s: &dyn Fn() -> String| if print { s() + "\n" } else { String::new() };
    Some(match api {
        0 => { let r = tokenize_bytes(b, &o).ok()?; p(&|| FmtAsExpr(&r).to_string()) }
        1 => { let r = parse_to_token(b, &o, StringifyMode::Normal).syntax; p(&|| FmtAsExpr(&r).to_string()) }
        2 => { let r = safe_string(b, &o).ok()?; p(&|| r.to_string()) }
        3 => { let r = parse_bytes_cst_seq(b, &o).syntax; p(&|| format!("{r:#?}")) }
        4 => { let r = parse_bytes_ast_seq(b, &o).syntax; p(&|| format!("{r:#?}")) }
        _ => { let r = parse_bytes_cst_seq(b, &o).syntax; p(&|| FmtAsExpr(&r).to_string()) }
    })
}
fn compare(what: &str, got: (Vec<u8>, bool), exp: Option<String>, cx: &mut Ctx) -> R {
    cx.exec(); cx.steps(1);
    let mut h = H::new(); h.b(&got.0); h.u(got.1 as u64); cx.state(h.0);
    match exp {
        None => if got.1 { Err(format!("{what}: ends normally although the call fails")) } else { Ok(()) },
        Some(e) => {
            if !got.1 { return Err(format!("{what}: fails")) }
            if got.0 != e.as_bytes() { return Err(format!("{what}: prints {}, expected {}", show(&got.0), show(e.as_bytes()))) }
            Ok(())
        }
    }
}
/// Input: file number, place of -file among the arguments, then the arguments; 200 and more: wrong arguments.
pub fn file(b: &[u8], _: u64, cx: &mut Ctx) -> R {
    let mut args: Vec<String> = b[2..].iter().map(|&k| if k >= 200 { WRONG[k as usize - 200] } else { FLAGS[k as usize] }.to_string()).collect();
    let at = (b[1] as usize).min(args.len());
    args.insert(at, "-file".into()); args.insert(at + 1, format!("f{}.wl", b[0]));
    let exp = if b[2..].iter().any(|&k| k >= 200) { None } else { result(FILES[b[0] as usize], &b[2..].iter().map(|k| *k as usize).collect::<Vec<_>>()) };
    compare(&format!("{args:?}, the file being {}", show(FILES[b[0] as usize])), run(&args, b"")?, exp, cx)
}
/// Input: number of flags, flags, then per line its number and how it ends.
pub fn lines(b: &[u8], _: u64, cx: &mut Ctx) -> R {
    let n = b[0] as usize;
    let flags: Vec<usize> = b[1..=n].iter().map(|k| *k as usize).collect();
    let args: Vec<String> = flags.iter().map(|&k| FLAGS[k].to_string()).collect();
    let (mut text, mut exp) = (String::new(), String::new());
    let l: Vec<&[u8]> = b[n + 1..].chunks(2).collect();
    for (i, x) in l.iter().enumerate() {
        let s = LINES[x[0] as usize];
        let end = ["\n", "\r\n", ""][x[1] as usize];
        let last = i + 1 == l.len();
        text += s; text += if end.is_empty() && !last { "\n" } else { end };
        if last && end.is_empty() && s.is_empty() { continue } // no line at all
        let Some(r) = result(s.trim_end().as_bytes(), &flags) else { return compare(&format!("{args:?}, the input being {}", show(text.as_bytes())), run(&args, text.as_bytes())?, None, cx) };
        exp += ">>> "; exp += &r;
    }
    exp += ">>> ";
    compare(&format!("{args:?}, the input being {}", show(text.as_bytes())), run(&args, text.as_bytes())?, Some(exp), cx)
}
pub fn space(t: bool) -> Vec<Space> {
    let w = |k: usize, min: usize, max: usize| Words { syms: (0..k as u8).map(|i| vec![i]).collect(), min, max };
    let f = w(FLAGS.len(), 0, if t { 3 } else { 2 });
    let (nf, np) = (FILES.len() as u64, if t { 4 } else { 3 });
    let n = f.count() * nf * np;
    let a = Space::func(&format!("{} files, up to {} flags in every order, -file in every place", nf, f.max), n, file, move |i, o| { o.push((i % nf) as u8); o.push((i / nf % np) as u8); f.write(i / nf / np, o); 0 });
    let wr = Space::func("a wrong argument before or after each flag", (WRONG.len() * FLAGS.len() * 2 * 3) as u64, file, move |i, o| { let i = i as usize; let (w, f) = (200 + (i % 6) as u8, (i / 6 % FLAGS.len()) as u8); o.push(1); o.push((i / 6 / FLAGS.len() % 3) as u8); if i / 6 / FLAGS.len() / 3 == 0 { o.extend([w, f]) } else { o.extend([f, w]) } 0 });
    let l = Words { syms: (0..LINES.len() as u8).flat_map(|x| (0..3).map(move |e| vec![x, e])).collect(), min: 0, max: 2 };
    let fl: Vec<Vec<u8>> = vec![vec![0], vec![1, 0], vec![1, 1], vec![1, 2], vec![1, 3], vec![1, 4], vec![1, 5], vec![1, 6], vec![1, 9], vec![2, 4, 9], vec![2, 0, 5], vec![2, 9, 0]];
    let k = fl.len() as u64;
    let c = Space::func(&format!("interactive: words of up to 2 lines over {} lines with 3 endings, {k} sets of flags", LINES.len()), l.count() * k, lines, move |i, o| { o.extend_from_slice(&fl[(i % k) as usize]); l.write(i / k, o); 0 });
    let mut v = vec![a, wr, c];
    if t { let l = Words { syms: (0..LINES.len() as u8).map(|x| vec![x, 0]).collect(), min: 3, max: 4 }; v.push(Space::func("interactive: 3 and 4 lines", l.count() * 2, lines, move |i, o| { o.extend_from_slice(if i % 2 == 0 { &[0] } else { &[1, 4] }); l.write(i / 2, o); 0 })) }
    v
}
