// The Rust implementation of the wire format behind a pipe: reads one request
// after the other from stdin (length, command, body) and answers it on stdout.
use std::io::{BufReader, BufWriter, Read, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

use bytes::Bytes;
use wasmrs::frames::FrameType;
use wasmrs::{Frame, Metadata, OperationList, OperationType, Payload};

struct In<'a>(&'a [u8]);

impl<'a> In<'a> {
    fn n(&mut self, n: usize) -> &'a [u8] {
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        a
    }
    fn u8(&mut self) -> u8 {
        self.n(1)[0]
    }
    fn u32(&mut self) -> u32 {
        let b = self.n(4);
        u32::from_be_bytes([b[0], b[1], b[2], b[3]])
    }
    fn bytes(&mut self) -> &'a [u8] {
        let n = self.u32() as usize;
        self.n(n)
    }
    fn text(&mut self) -> String {
        String::from_utf8(self.bytes().to_vec()).unwrap()
    }
}

#[derive(Default)]
struct Out(Vec<u8>);

impl Out {
    fn u8(&mut self, v: u8) {
        self.0.push(v);
    }
    fn u32(&mut self, v: u32) {
        self.0.extend_from_slice(&v.to_be_bytes());
    }
    fn bytes(&mut self, b: &[u8]) {
        self.u32(b.len() as u32);
        self.0.extend_from_slice(b);
    }
}

fn flags(complete: bool, next: bool, follows: bool) -> u8 {
    complete as u8 | (next as u8) << 1 | (follows as u8) << 2
}

// frame describes a frame: kind, stream, flags, n, code, metadata, data.
fn frame(o: &mut Out, f: &Frame) {
    let t: u32 = f.frame_type().into();
    o.u8(t as u8);
    o.u32(f.stream_id());
    let (fl, n, code, md, data): (u8, u32, u32, &[u8], &[u8]) = match f {
        Frame::PayloadFrame(p) => (flags(p.complete, p.next, p.follows), 0, 0, &p.metadata, &p.data),
        Frame::Cancel(_) => (0, 0, 0, &[], &[]),
        Frame::ErrorFrame(e) => (0, 0, e.code, &[], e.data.as_bytes()),
        Frame::RequestN(r) => (0, r.n, 0, &[], &[]),
        Frame::RequestResponse(r) => (flags(r.0.complete, false, r.0.follows), r.0.initial_n, 0, &r.0.metadata, &r.0.data),
        Frame::RequestFnF(r) => (flags(r.0.complete, false, r.0.follows), r.0.initial_n, 0, &r.0.metadata, &r.0.data),
        Frame::RequestStream(r) => (flags(r.0.complete, false, r.0.follows), r.0.initial_n, 0, &r.0.metadata, &r.0.data),
        Frame::RequestChannel(r) => (flags(r.0.complete, false, r.0.follows), r.0.initial_n, 0, &r.0.metadata, &r.0.data),
    };
    o.u8(fl);
    o.u32(n);
    o.u32(code);
    o.bytes(md);
    o.bytes(data);
}

fn lookups(i: &mut In, o: &mut Out, list: &OperationList) {
    for _ in 0..i.u32() {
        let dir = i.u8();
        let (ns, op) = (i.text(), i.text());
        let r = if dir == 1 { list.get_export(&ns, &op) } else { list.get_import(&ns, &op) };
        o.u8(r.is_some() as u8);
        o.u32(r.unwrap_or(0));
    }
}

fn answer(req: &[u8]) -> Vec<u8> {
    let mut i = In(req);
    let mut o = Out::default();
    o.u8(b'K');
    match i.u8() {
        // bytes to frame, and that frame to bytes
        b'd' => match Frame::decode(Bytes::copy_from_slice(i.0)) {
            Ok(f) => {
                frame(&mut o, &f);
                o.bytes(&f.encode());
            }
            Err((id, _)) => {
                o.0[0] = b'E';
                o.u32(id);
            }
        },
        // values to frame to bytes
        b'e' => {
            let kind = FrameType::try_from(i.u8()).unwrap();
            let id = i.u32();
            let fl = i.u32() as u16;
            let (n, code) = (i.u32(), i.u32());
            let part = |i: &mut In| {
                let has = i.u8() == 1;
                let b = Bytes::copy_from_slice(i.bytes());
                has.then_some(b)
            };
            let (md, data) = (part(&mut i), part(&mut i));
            let text = String::from_utf8(data.clone().unwrap_or_default().to_vec()).unwrap_or_default();
            let p = Payload::new_data(md, data);
            let f = match kind {
                FrameType::RequestResponse => Frame::new_request_response(id, p, fl),
                FrameType::RequestFnf => Frame::new_request_fnf(id, p, fl),
                FrameType::RequestStream => Frame::new_request_stream(id, p, fl),
                FrameType::RequestChannel => Frame::new_request_channel(id, p, fl, n),
                FrameType::RequestN => Frame::new_request_n(id, n, fl),
                FrameType::Cancel => Frame::new_cancel(id),
                FrameType::Payload => Frame::new_payload(id, p, fl),
                _ => Frame::new_error(id, code, text),
            };
            o.bytes(&f.encode());
        }
        // bytes to operation list, and that list to bytes
        b't' => {
            let b = Bytes::copy_from_slice(i.bytes());
            match OperationList::decode(b) {
                Ok(l) => {
                    o.bytes(&l.encode());
                    lookups(&mut i, &mut o, &l);
                }
                Err(_) => o.0[0] = b'E',
            }
        }
        // operations to list to bytes
        b'w' => {
            let mut l = OperationList::default();
            for _ in 0..i.u32() {
                let (dir, kind) = (i.u8(), i.u8());
                let index = i.u32();
                let (ns, op) = (i.text(), i.text());
                let kind = match kind {
                    1 => OperationType::RequestResponse,
                    2 => OperationType::RequestFnF,
                    3 => OperationType::RequestStream,
                    _ => OperationType::RequestChannel,
                };
                if dir == 1 {
                    l.add_export(index, kind, ns, op);
                } else {
                    l.add_import(index, kind, ns, op);
                }
            }
            o.bytes(&l.encode());
            lookups(&mut i, &mut o, &l);
        }
        // an operation index as metadata
        b'm' => {
            let b = Metadata::new(i.u32()).encode();
            o.bytes(&b);
        }
        // metadata to operation index
        b'M' => match Payload::new(Bytes::copy_from_slice(i.0), Bytes::new()).parse_metadata() {
            Ok(m) => o.u32(m.index),
            Err(_) => o.0[0] = b'E',
        },
        // the first frame of a stream of bytes
        b'r' => match wasmrs::util::read_frame(i.0) {
            Ok(f) => o.bytes(&f),
            Err(_) => o.0[0] = b'E',
        },
        _ => panic!("unknown command"),
    }
    o.0
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let mut r = BufReader::with_capacity(1 << 20, std::io::stdin());
    let mut w = BufWriter::with_capacity(1 << 20, std::io::stdout());
    loop {
        let mut n = [0u8; 4];
        // Answer what is pending before waiting for more.
        if r.buffer().is_empty() {
            w.flush().unwrap();
        }
        if r.read_exact(&mut n).is_err() {
            return;
        }
        let mut req = vec![0; u32::from_be_bytes(n) as usize];
        r.read_exact(&mut req).unwrap();
        let res = catch_unwind(AssertUnwindSafe(|| answer(&req))).unwrap_or_else(|e| {
            let mut v = vec![b'P'];
            if let Some(s) = e.downcast_ref::<String>() {
                v.extend_from_slice(s.as_bytes());
            } else if let Some(s) = e.downcast_ref::<&str>() {
                v.extend_from_slice(s.as_bytes());
            }
            v
        });
        w.write_all(&(res.len() as u32).to_be_bytes()).unwrap();
        w.write_all(&res).unwrap();
    }
}
