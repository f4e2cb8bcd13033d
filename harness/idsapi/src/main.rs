//! Handles of real clients and servers, and generated tags.
#![allow(dead_code)]
#[path = "../../ids/src/common.rs"]
mod common;

use common::Source;
use imap_codec::{decode::Decoder, GreetingCodec};
use imap_next::{
    client::{self, Client, CommandHandle},
    server::{self, ResponseHandle, Server},
    Interrupt, State,
};
use imap_types::{
    auth::AuthMechanism,
    command::{Command, CommandBody},
    core::Tag,
    response::{CommandContinuationRequest, Data, Greeting, Status},
};
use serde_json::json;
use tag_generator::TagGenerator;

/// Commands, in turns of different kinds; each is sent before the next one.
struct Clients;
impl Source for Clients {
    const KIND: &'static str = "client";
    type Conn = (Client, u64, bool);
    type Id = CommandHandle;
    fn conn(&self) -> Self::Conn {
        let mut c = Client::new(client::Options::default());
        c.enqueue_input(b"* OK hi\r\n");
        (c, 0, false)
    }
    fn id(&self, (c, n, busy): &mut Self::Conn) -> CommandHandle {
        *n += 1;
        let body = match *n % 5 {
            0 => CommandBody::Noop,
            1 => CommandBody::Idle,
            2 => CommandBody::authenticate(AuthMechanism::Plain),
            3 => CommandBody::login("a{", "b\\").unwrap(),
            _ => CommandBody::Capability,
        };
        let h = c.enqueue_command(Command { tag: Tag::unvalidated("A".to_string()), body });
        // Get it out, so the queue stays short.
        if *n > 200 && *n % 5 == 2 {
            c.enqueue_input(b"A BAD\r\n");
            c.enqueue_input(b"A BAD no\r\n");
        }
        for _ in 0..6 {
            match c.next() {
                Err(Interrupt::Io(imap_next::Io::NeedMoreInput)) => {
                    if *n > 50 {
                        c.enqueue_input(b"A BAD no\r\n");
                    }
                    break;
                }
                Err(Interrupt::Error(_)) => {}
                _ => {}
            }
        }
        *busy = true;
        h
    }
}

struct Servers(Greeting<'static>);
impl Source for Servers {
    const KIND: &'static str = "server";
    type Conn = (Server, u64);
    type Id = ResponseHandle;
    fn conn(&self) -> Self::Conn {
        (Server::new(server::Options::default(), self.0.clone()), 0)
    }
    fn id(&self, (s, n): &mut Self::Conn) -> ResponseHandle {
        *n += 1;
        let h = match *n % 3 {
            0 => s.enqueue_data(Data::Exists(3)),
            1 => s.enqueue_status(Status::ok(None, None, "x").unwrap()),
            _ => s.enqueue_continuation_request(CommandContinuationRequest::basic(None, "x").unwrap()),
        };
        if *n > 20 {
            for _ in 0..5 {
                if let Err(Interrupt::Io(imap_next::Io::NeedMoreInput)) = s.next() {
                    break;
                }
            }
        }
        h
    }
}
/// Dialogue calls hand out handles as well.
struct Dialogues(Greeting<'static>);
impl Source for Dialogues {
    const KIND: &'static str = "server dialogue";
    type Conn = (Server, u64);
    type Id = ResponseHandle;
    fn conn(&self) -> Self::Conn {
        (Server::new(server::Options::default(), self.0.clone()), 0)
    }
    fn id(&self, (s, n): &mut Self::Conn) -> ResponseHandle {
        *n += 1;
        let run = |s: &mut Server| {
            for _ in 0..8 {
                if let Err(Interrupt::Io(imap_next::Io::NeedMoreInput)) = s.next() {
                    break;
                }
            }
        };
        let ok = || Status::ok(None, None, "x").unwrap();
        let go = || CommandContinuationRequest::basic(None, "x").unwrap();
        match *n % 6 {
            1 => {
                s.enqueue_input(b"A AUTHENTICATE PLAIN\r\n");
                run(s);
                s.authenticate_continue(go()).unwrap_or_else(|c| s.enqueue_continuation_request(c))
            }
            2 => s.authenticate_finish(ok()).unwrap_or_else(|c| s.enqueue_status(c)),
            3 => {
                s.enqueue_input(b"A IDLE\r\n");
                run(s);
                s.idle_accept(go()).unwrap_or_else(|c| s.enqueue_continuation_request(c))
            }
            4 => {
                run(s);
                s.enqueue_input(b"DONE\r\n");
                run(s);
                s.enqueue_data(Data::Exists(1))
            }
            5 => {
                s.enqueue_input(b"A IDLE\r\n");
                run(s);
                s.idle_reject(ok()).unwrap_or_else(|c| s.enqueue_status(c))
            }
            _ => {
                run(s);
                s.enqueue_status(ok())
            }
        }
    }
}

struct Tags;
impl Source for Tags {
    const KIND: &'static str = "tag";
    type Conn = TagGenerator;
    type Id = String;
    fn conn(&self) -> Self::Conn {
        TagGenerator::new()
    }
    fn id(&self, c: &mut TagGenerator) -> String {
        c.generate().as_ref().to_string()
    }
    fn text(id: &String) -> String {
        id.clone()
    }
    fn skip(&self, c: &mut TagGenerator, n: u64) -> bool {
        // The word that goes up by one.
        let w = std::mem::size_of::<TagGenerator>() / 8;
        if std::mem::size_of::<TagGenerator>() % 8 != 0 || std::mem::align_of::<TagGenerator>() != 8 {
            return false;
        }
        let read = |c: &TagGenerator| -> Vec<u64> {
            (0..w).map(|i| unsafe { std::ptr::read_volatile((c as *const TagGenerator as *const u64).add(i)) }).collect()
        };
        let a = read(c);
        c.generate();
        let b = read(c);
        c.generate();
        c.generate();
        let d = read(c);
        let ch: Vec<usize> = (0..w).filter(|i| a[*i] != b[*i] || b[*i] != d[*i]).collect();
        match ch[..] {
            [i] if b[i] == a[i].wrapping_add(1) && d[i] == b[i].wrapping_add(2) => {
                unsafe { std::ptr::write_volatile((c as *mut TagGenerator as *mut u64).add(i), n) };
                true
            }
            _ => false,
        }
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (tlc, out, scale, seed) = (&a[1], &a[2], a[3].parse().unwrap(), a[4].parse().unwrap());
    let what = a[5].as_str();
    let (mut traces, mut bad) = (vec![], vec![]);
    let greeting = || {
        let (_, g) = GreetingCodec::default().decode(b"* OK hi\r\n").unwrap();
        bounded_static::IntoBoundedStatic::into_static(g)
    };
    let mut stats = vec![];
    if what != "tags" {
        stats.push(common::all(&Clients, tlc, scale, seed, &mut traces, &mut bad));
        stats.push(common::all(&Servers(greeting()), tlc, scale, seed, &mut traces, &mut bad));
        stats.push(common::all(&Dialogues(greeting()), tlc, 1, seed, &mut traces, &mut bad));
    } else {
        stats.push(common::all(&Tags, tlc, scale, seed, &mut traces, &mut bad));
    }
    std::fs::write(out, serde_json::to_vec(&json!({"traces": traces, "bad": bad, "stats": stats})).unwrap()).unwrap();
}
