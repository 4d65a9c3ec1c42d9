//! Text sources under the control of the harness.

use crate::engine::Ch;
use serdere::TextReader;
use std::io;

/// A minimal conforming [`TextReader`] over a character sequence; its positions are character
/// offsets. Implements only the required methods, so the provided ones are exercised too.
#[derive(Clone)]
pub struct CharReader<'a> {
    pub doc: &'a [char],
    pub i: usize,
}

impl<'a> CharReader<'a> {
    pub fn new(doc: &'a [char]) -> Self {
        CharReader { doc, i: 0 }
    }
}

impl<'a> TextReader for CharReader<'a> {
    type Position = usize;
    fn next(&mut self) -> Option<char> {
        let c = self.doc.get(self.i).copied()?;
        self.i += 1;
        Some(c)
    }
    fn peek(&self) -> Option<char> {
        self.doc.get(self.i).copied()
    }
    fn position(&self) -> usize {
        self.i
    }
}

/// What ended the delivery of a [`Live`] source.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Event {
    None,
    Failed(usize),
    Eof(usize),
}

/// A byte source whose every answer is a choice of the explorer: how many bytes are delivered,
/// whether the read is interrupted, fails, or ends the input early.
pub struct Live<'c, 'a> {
    pub ch: &'c mut Ch,
    pub data: &'a [u8],
    pub pos: usize,
    /// Interruptions that may still happen.
    pub interrupts: usize,
    /// Whether a failure may still happen.
    pub may_fail: bool,
    /// Whether the input may end early.
    pub may_end: bool,
    /// Whether the amount delivered is a choice.
    pub chunks: bool,
    pub event: Event,
    pub log: Vec<&'static str>,
}

impl<'c, 'a> Live<'c, 'a> {
    pub fn new(ch: &'c mut Ch, data: &'a [u8]) -> Self {
        Live { ch, data, pos: 0, interrupts: 0, may_fail: false, may_end: false, chunks: true, event: Event::None, log: Vec::new() }
    }
}

pub const FAILURES: [io::ErrorKind; 3] = [io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::UnexpectedEof];

impl io::Read for Live<'_, '_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        if let Event::Eof(_) = self.event {
            return Ok(0);
        }
        let left = &self.data[self.pos..];
        let most = left.len().min(buf.len());
        // Answers: deliver everything asked for, or fewer bytes, or an event
        let sizes = if self.chunks { most.max(1) } else { 1 };
        let mut n = sizes;
        let int = n;
        n += (self.interrupts > 0) as usize;
        let fail = n;
        n += if self.may_fail { FAILURES.len() } else { 0 };
        let eof = n;
        n += (self.may_end && most > 0) as usize;
        let c = self.ch.choose(n);
        if c < int {
            let k = most - c.min(most);
            if most == 0 {
                self.event = Event::Eof(self.pos);
                return Ok(0);
            }
            buf[..k].copy_from_slice(&left[..k]);
            self.pos += k;
            Ok(k)
        } else if c < fail {
            self.interrupts -= 1;
            self.log.push("interrupted");
            Err(io::ErrorKind::Interrupted.into())
        } else if c < eof {
            self.may_fail = false;
            self.may_end = false;
            self.log.push("failed");
            self.event = Event::Failed(self.pos);
            Err(FAILURES[c - fail].into())
        } else {
            self.log.push("ended early");
            self.event = Event::Eof(self.pos);
            Ok(0)
        }
    }
}

/// The line and column (from 0; tab: four columns, carriage return: none) of each character
/// boundary of a text.
pub fn line_columns(doc: &[char]) -> Vec<(usize, usize)> {
    let (mut line, mut col) = (0, 0);
    let mut r = vec![(0, 0)];
    for c in doc {
        match c {
            '\n' => {
                line += 1;
                col = 0;
            }
            '\t' => col += 4,
            '\r' => (),
            _ => col += 1,
        }
        r.push((line, col));
    }
    r
}

/// Turns a position of a `&str` source into the character offset in `doc`.
pub fn str_offset(doc: &str, pos: &serdere::StrPosition) -> usize {
    // Positions are ordered like the text; binary search over the character boundaries.
    let bounds: Vec<usize> = doc.char_indices().map(|(i, _)| i).chain([doc.len()]).collect();
    let i = bounds.partition_point(|b| {
        let d: &str = &doc[*b..];
        d.position() < *pos
    });
    i
}
