//! Building blocks for random and scripted conversations.
use rand::{rngs::StdRng, seq::SliceRandom, Rng};

/// Sizes around which widths, buffers and limits change.
pub const BIG: &[usize] = &[
    255, 256, 257, 511, 1000, 1023, 1024, 2048, 4095, 4096, 4097, 8191, 8192, 8193, 10_000, 16_384, 16_385, 32_767, 32_768, 32_769, 65_535, 65_536, 65_537,
    65_538, 70_000, 100_000, 131_071, 131_073,
];
/// Literals that are announced and never sent.
pub const HUGE: &[u64] = &[
    26_214_399, 26_214_400, 26_214_401, 26_279_935, 26_279_936, 26_279_937, 16_777_216, 100_000_000, 2_147_483_647, 2_147_483_648, 4_294_967_294, 4_294_967_295,
    4_294_967_296, 99_999_999_999,
];
pub fn huge(r: &mut StdRng) -> u64 {
    *HUGE.choose(r).unwrap()
}
fn big_data(r: &mut StdRng, max: usize) -> Vec<u8> {
    let n = loop {
        let n = *BIG.choose(r).unwrap();
        if n <= max {
            break n;
        }
    };
    let mut v: Vec<u8> = (0..n).map(|i| b"abcdefghijklmnopqrstuvw+"[i % 24]).collect();
    for _ in 0..r.gen_range(0..6) {
        let k = r.gen_range(0..n - 1);
        v[k] = b'\r';
        v[k + 1] = b'\n';
    }
    if r.gen_bool(0.3) {
        // ends like a line
        v[n - 2] = b'\r';
        v[n - 1] = b'\n';
    }
    v
}
pub fn lit_data(r: &mut StdRng, max: usize) -> Vec<u8> {
    if max >= BIG[0] && r.gen_bool(0.6) {
        return big_data(r, max);
    }
    let n = match r.gen_range(0..10) {
        0 => 0,
        1..=6 => r.gen_range(1..=max.clamp(1, 8)),
        _ => r.gen_range(1..=max.max(1)),
    };
    let alphabet: &[u8] = b"ab+ {}12\r\n\"\\()*A";
    let mut v: Vec<u8> = (0..n).map(|_| *alphabet.choose(r).unwrap()).collect();
    if n >= 2 && r.gen_bool(0.3) {
        let k = r.gen_range(0..n - 1);
        v[k] = b'\r';
        v[k + 1] = b'\n';
    }
    v
}
pub fn lit(r: &mut StdRng, max: usize) -> Vec<u8> {
    let d = lit_data(r, max);
    let plus = if r.gen_bool(0.35) { "+" } else { "" };
    let mut v = format!("{{{}{plus}}}\r\n", d.len()).into_bytes();
    v.extend(d);
    v
}
pub fn astr(r: &mut StdRng, max: usize) -> Vec<u8> {
    match r.gen_range(0..6) {
        0 => b"bob".to_vec(),
        1 => b"\"x y\"".to_vec(),
        _ => lit(r, max),
    }
}
pub fn tag(r: &mut StdRng, i: usize) -> String {
    match r.gen_range(0..12) {
        0 => "A1".into(),
        1 => "a1".into(),
        2 => format!("A1{i}"),
        3 => format!("{i}"),
        4 if i % 2 == 1 => ["]", "}", "a.b/c-d_e:f;g,h?i@j=k'l&m|n~o`p^q<r>s!t#u$v[w]x", "\u{21}", "0", "OK", "DONE", "A1.1"].choose(r).unwrap().to_string(),
        _ => format!("A{i}"),
    }
}
/// Commands of all kinds; `$`: a string of any form, `%`: a literal.
pub const COMMANDS: &[&str] = &[
    "LOGIN $ $", "SELECT $", "EXAMINE $", "CREATE $", "DELETE $", "RENAME $ $", "SUBSCRIBE $", "UNSUBSCRIBE $", "LIST $ $", "LSUB $ $",
    "LIST \"\" *", "LSUB \"\" %%", "STATUS $ (MESSAGES UIDNEXT)", "APPEND $ %", "APPEND $ (\\Seen \\Draft) %", "COPY 1:2 $", "UID COPY 3 $", "MOVE 4 $",
    "UID MOVE 2:* $", "GETQUOTA $", "GETQUOTAROOT $", "ID ($ $)", "ID NIL", "CAPABILITY", "NOOP", "LOGOUT", "STARTTLS", "CHECK", "CLOSE", "EXPUNGE",
    "UNSELECT", "ENABLE CONDSTORE", "FETCH 1:* (FLAGS)", "FETCH 1 ALL", "UID FETCH 5 (UID RFC822.SIZE)", "STORE 2 +FLAGS (\\Deleted)",
    "UID STORE 1:3 -FLAGS.SILENT (\\Seen)", "noop", "Login $ $", "select $",
];
fn any_command(r: &mut StdRng, max: usize) -> Vec<u8> {
    let t = COMMANDS.choose(r).unwrap();
    let mut v = vec![];
    let mut pc = false;
    for b in t.bytes() {
        if b == b'%' && t.contains("%%") {
            if !pc {
                v.push(b);
            }
            pc = true;
        } else if b == b'$' && t.contains("ID (") {
            if r.gen_bool(0.5) { v.extend(lit(r, max)) } else { v.extend(b"\"na me\"") }
        } else if b == b'$' {
            v.extend(astr(r, max))
        } else if b == b'%' {
            v.extend(lit(r, max))
        } else {
            v.push(b)
        }
    }
    v
}
/// Wire form of a command.
pub fn command(r: &mut StdRng, tag: &str, max: usize) -> Vec<u8> {
    let mut v = format!("{tag} ").into_bytes();
    match r.gen_range(0..27) {
        20..=26 => v.extend(any_command(r, max)),
        0 => v.extend(b"NOOP"),
        1 => v.extend(b"CAPABILITY"),
        2 => v.extend(b"LOGIN alice pw"),
        3..=6 => {
            v.extend(b"LOGIN ");
            v.extend(astr(r, max));
            v.push(b' ');
            v.extend(astr(r, max));
        }
        7 | 8 => {
            v.extend(b"APPEND INBOX (\\Seen) ");
            v.extend(lit(r, max));
        }
        9 => {
            v.extend(b"SELECT ");
            v.extend(lit(r, max));
        }
        10 => {
            v.extend(b"RENAME ");
            v.extend(lit(r, max));
            v.push(b' ');
            v.extend(astr(r, max));
        }
        11 => v.extend(b"LOGOUT"),
        12 | 13 => v.extend(b"AUTHENTICATE PLAIN"),
        14 => v.extend(*[&b"AUTHENTICATE PLAIN ="[..], b"AUTHENTICATE LOGIN AGEAYg==", b"AUTHENTICATE XFOO AGI=", b"AUTHENTICATE PLAIN AGFsaWNlAHNlY3JldA==",
            b"AUTHENTICATE XOAUTH2 dXNlcj1hbGljZQFhdXRoPUJlYXJlciBhYmNkZWYBAQ==", b"AUTHENTICATE SCRAM-SHA-1 biwsbj11c2VyLHI9Zm9vYmFyYmF6"].choose(r).unwrap()),
        15 | 16 | 17 => v.extend(b"IDLE"),
        18 => v.extend(b"STORE 1:2 FLAGS (\\Seen)"),
        _ => {
            v.extend(b"ID (\"name\" ");
            v.extend(lit(r, max));
            v.push(b')');
        }
    }
    v.extend(b"\r\n");
    v
}
pub fn auth_line(r: &mut StdRng) -> Vec<u8> {
    let pool: &[&[u8]] = &[b"AGFsaWNlAHBhc3M=\r\n", b"Yz1iaXdzLHI9Zm9vYmFyYmF6LHA9c2VjcmV0\r\n", b"\r\n", b"*\r\n", b"QQ==\r\n", b"YWJj\r\n"];
    pool.choose(r).unwrap().to_vec()
}
pub fn greeting(r: &mut StdRng) -> Vec<u8> {
    let pool: &[&[u8]] = &[
        b"* OK hello\r\n",
        b"* PREAUTH [CAPABILITY IMAP4REV1 IDLE] ready\r\n",
        b"* BYE full\r\n",
        b"* OK [ALERT] be careful\r\n",
    ];
    pool.choose(r).unwrap().to_vec()
}
pub fn text(r: &mut StdRng) -> &'static str {
    ["done", "...", "no way", "BAD news", "+ ok", "x {3}"].choose(r).unwrap()
}
pub const RESPONSES: &[&[u8]] = &[
    b"* 0 EXISTS\r\n", b"* 172 EXISTS\r\n", b"* 4294967295 EXISTS\r\n", b"* 2 RECENT\r\n", b"* 1 EXPUNGE\r\n", b"* FLAGS ()\r\n", b"* FLAGS (\\Seen \\X-a)\r\n",
    b"* SEARCH\r\n", b"* SEARCH 2 3 4294967295\r\n", b"* LIST (\\Noselect) \"/\" \"a b\"\r\n", b"* LIST () NIL {4}\r\na\r\nb\r\n", b"* LSUB () \".\" in\r\n",
    b"* STATUS {2}\r\nin (MESSAGES 2)\r\n", b"* ENABLED CONDSTORE\r\n", b"* QUOTAROOT in \"\"\r\n", b"* ID NIL\r\n", b"* ID (\"name\" {2}\r\n\r\n)\r\n",
    b"* CAPABILITY IMAP4REV1 LITERAL+ AUTH=PLAIN STARTTLS LOGINDISABLED X-Y=Z\r\n", b"* 1 FETCH (FLAGS (\\Seen) UID 3)\r\n",
    b"* OK [UIDVALIDITY 1] x\r\n", b"* OK [PERMANENTFLAGS (\\Seen \\*)] y\r\n", b"* NO [TRYCREATE] z\r\n", b"* BAD [X-NEW a b] w\r\n", b"* OK [UNSEEN 2] v\r\n",
    b"* BYE [ALERT] going\r\n", b"+ [CAPABILITY IDLE] x\r\n", b"+ \r\n",
];
/// A complete response (no greeting).
pub fn response(r: &mut StdRng, tags: &[String], big: usize) -> Vec<u8> {
    let mut v = Vec::new();
    match r.gen_range(0..12) {
        0 => v.extend(*RESPONSES.choose(r).unwrap()),
        1 => v.extend(b"* CAPABILITY IMAP4REV1 IDLE AUTH=PLAIN\r\n"),
        2 => {
            v.extend(b"* 1 FETCH (BODY[] ");
            let mut l = lit(r, big);
            if let Some(p) = l.iter().position(|b| *b == b'+') {
                if l[..p].iter().all(|b| *b == b'{' || b.is_ascii_digit()) {
                    l.remove(p);
                }
            }
            v.extend(l);
            if r.gen_bool(0.4) {
                let d = lit_data(r, big);
                v.extend(format!(" RFC822 {{{}}}\r\n", d.len()).as_bytes());
                v.extend(d);
            }
            v.extend(b")\r\n");
        }
        3 | 4 => {
            let k = ["OK", "NO", "BAD", "BYE"].choose(r).unwrap();
            v.extend(format!("* {k} {}\r\n", text(r)).as_bytes());
        }
        5 => v.extend(b"+ go ahead\r\n"),
        6 => v.extend(b"+ QUJD\r\n"),
        7 => v.extend(b"+ [ALERT] wait\r\n"),
        _ => {
            let t = tags.choose(r).cloned().unwrap_or_else(|| "Z9".into());
            let k = ["OK", "NO", "BAD"].choose(r).unwrap();
            let code = if r.gen_bool(0.2) { "[ALERT] " } else { "" };
            v.extend(format!("{t} {k} {code}{}\r\n", text(r)).as_bytes());
        }
    }
    v
}
pub fn status(r: &mut StdRng, tag: Option<&str>) -> Vec<u8> {
    let k = ["OK", "NO", "BAD"].choose(r).unwrap();
    let code = if r.gen_bool(0.2) { "[ALERT] " } else { "" };
    format!("{} {k} {code}{}\r\n", tag.unwrap_or("*"), text(r)).into_bytes()
}
pub fn cont(r: &mut StdRng) -> Vec<u8> {
    let pool: &[&[u8]] = &[b"+ idling\r\n", b"+ \r\n", b"+ Y2hhbGxlbmdl\r\n", b"+ [ALERT] go on\r\n"];
    pool.choose(r).unwrap().to_vec()
}
pub fn garbage(r: &mut StdRng) -> Vec<u8> {
    let pool: &[&[u8]] = &[
        b"\r\n",
        b"what is this\r\n",
        b"* \r\n",
        b"A1\r\n",
        b"A1 \r\n",
        b"A1 LOGIN\r\n",
        b"\r\r\n",
        b"a\rb\r\n",
        b"{3}\r\nabc\r\n",
        b"A9 LOGIN {3}\r\nab\r\n\r\n",
        b"* 1 FETCH (BODY[] {2}\r\nab\r\n",
        b"A2 DONE\r\n",
        b"DONE \r\n",
        b"=\r\n",
        b"\xff\xfe\r\n",
        b"+\r\n",
        b"*\r\n",
    ];
    pool.choose(r).unwrap().to_vec()
}
/// Damages the line ends of a message.
pub fn bare_lf(r: &mut StdRng, v: &mut Vec<u8>) {
    let pos: Vec<usize> = (1..v.len()).filter(|i| v[*i] == b'\n' && v[*i - 1] == b'\r').collect();
    if let Some(p) = pos.choose(r) {
        v.remove(p - 1);
    }
}
pub fn oneof<'a, T>(r: &mut StdRng, xs: &'a [T]) -> &'a T {
    xs.choose(r).unwrap()
}
