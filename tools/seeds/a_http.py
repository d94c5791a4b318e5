SLICE = "src/seek_slice.rs"
HTTP = "src/package_db/http/http.rs"
KVS = "src/kvstore.rs"
S = [
 dict(id="p21-short-read", prop="P21", edits=[(SLICE, "self.current += amount as u64;\n        Ok(amount)", "self.current += read_size as u64;\n        Ok(amount)")],
      demo_file=SLICE, needs="an underlying file that returns fewer bytes than asked for in one read",
      breaks="after a short read the window's position runs ahead of the file, so the tail of the window is cut off",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    struct Slow(std::io::Cursor<Vec<u8>>);
    impl Read for Slow {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            let n = buf.len().min(3);
            self.0.read(&mut buf[..n])
        }
    }
    impl Seek for Slow {
        fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
            self.0.seek(p)
        }
    }
    #[test]
    fn vpdemo_short_read() {
        let data: Vec<u8> = (0..50u8).collect();
        let mut s = SeekSlice::new(Slow(std::io::Cursor::new(data)), 10, 40).unwrap();
        let mut out = Vec::new();
        s.read_to_end(&mut out).unwrap();
        assert_eq!(out, (10..40u8).collect::<Vec<u8>>());
    }
}
'''),
 dict(id="p21-end-base", prop="P21", edits=[(SLICE, "SeekFrom::Current(amount) => checked_add_signed(self.current, amount),", "SeekFrom::Current(amount) if amount < 0 => checked_add_signed(self.current, amount),\n            SeekFrom::Current(amount) => self.inner.stream_position()?.checked_add(amount as u64),")],
      demo_file=SLICE, needs="a relative forward seek after the underlying file was moved independently of the window",
      breaks="relative seeks are measured from the underlying file's position instead of the window's own",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    // a file whose own cursor always rests elsewhere (as with a shared descriptor)
    struct Shared(std::io::Cursor<Vec<u8>>, u64);
    impl Read for Shared {
        fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
            self.0.read(buf)
        }
    }
    impl Seek for Shared {
        fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> {
            if let SeekFrom::Current(0) = p {
                return Ok(self.1);
            }
            self.0.seek(p)
        }
    }
    #[test]
    fn vpdemo_rel() {
        let data: Vec<u8> = (0..50u8).collect();
        let mut s = SeekSlice::new(Shared(std::io::Cursor::new(data), 22), 10, 40).unwrap();
        assert_eq!(s.seek(SeekFrom::Start(5)).unwrap(), 5);
        assert_eq!(s.seek(SeekFrom::Current(2)).unwrap(), 7);
    }
}
'''),
 dict(id="p18-stale-base", prop="P18", edits=[(HTTP, "        for attempt in 0..=max_redirects {\n            let url = Url::parse(&request.uri().to_string())?;\n", "        let url = Url::parse(&request.uri().to_string())?;\n        for attempt in 0..=max_redirects {\n"),
                                              (HTTP, "response.extensions_mut().insert(url);\n            return", "response.extensions_mut().insert(url.clone());\n            return")],
      demo_file=HTTP, needs="a chain of at least two redirects where the second Location is relative, or any redirect plus a look at the final URL",
      breaks="Location headers are resolved against the first URL of the chain, and the answer is labelled with it",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    use std::io::{BufRead, BufReader};
    #[test]
    fn vpdemo_redirect() {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let port = l.local_addr().unwrap().port();
        std::thread::spawn(move || {
            for s in l.incoming() {
                let mut s = s.unwrap();
                let mut first = String::new();
                let mut r = BufReader::new(s.try_clone().unwrap());
                r.read_line(&mut first).unwrap();
                loop {
                    let mut h = String::new();
                    r.read_line(&mut h).unwrap();
                    if h.trim().is_empty() {
                        break;
                    }
                }
                let path = first.split(' ').nth(1).unwrap().to_string();
                let (st, loc, body) = match path.as_str() {
                    "/a/x" => ("302 Found", "/b/y", ""),
                    "/b/y" => ("302 Found", "z", ""),
                    "/b/z" => ("200 OK", "", "right"),
                    _ => ("200 OK", "", "wrong"),
                };
                let loc = if loc.is_empty() { String::new() } else { format!("Location: {}\\r\\n", loc) };
                write!(s, "HTTP/1.1 {}\\r\\n{}Content-Length: {}\\r\\nConnection: close\\r\\n\\r\\n{}", st, loc, body.len(), body).unwrap();
            }
        });
        let tmp = tempfile::tempdir().unwrap();
        let inner = HttpInner::new(
            KVFileStore::new(&tmp.path().join("h")).unwrap(),
            KVFileStore::new(&tmp.path().join("a")).unwrap(),
        );
        let req = http::Request::get(format!("http://127.0.0.1:{}/a/x", port)).body(()).unwrap();
        let mut resp = inner.request(req, CacheMode::NoStore).unwrap();
        assert_eq!(slurp(resp.body_mut()).unwrap(), b"right");
        let u: Url = resp.extensions().get::<Url>().unwrap().clone();
        assert_eq!(u.path(), "/b/z");
    }
}
'''),
 dict(id="p14-truncated-digest", prop="P14", edits=[(KVS, "path.push(bytes_to_path_suffix(&self.raw_data));", "path.push(bytes_to_path_suffix(self.raw_data.get(..32).unwrap_or(&self.raw_data)));")],
      demo_file=KVS, needs="two artifact hashes of an algorithm longer than 32 bytes that agree in their first 32 bytes",
      breaks="long digests are cut to 32 bytes in the entry's path, so different hashes share an entry",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_long_hash() {
        let mut a = "0".repeat(127) + "1";
        let x = ArtifactHash::from_hex("sha512", &a).unwrap();
        a.pop();
        let y = ArtifactHash::from_hex("sha512", &(a + "2")).unwrap();
        assert!(x != y);
        assert!((&x).key() != (&y).key());
    }
}
'''),
 dict(id="p15-no-query", prop="P15", edits=[(HTTP, "    let uri = req.uri().to_string().into_bytes();\n    key.extend(uri.len()", "    let uri = format!(\n        \"{}://{}{}\",\n        req.uri().scheme_str().unwrap_or(\"\"),\n        req.uri().host().unwrap_or(\"\"),\n        req.uri().path_and_query().map_or(\"\", |pq| pq.as_str())\n    )\n    .into_bytes();\n    key.extend(uri.len()")],
      demo_file=HTTP, needs="two servers on the same host that differ only in their port",
      breaks="the port is left out of the response cache's key, so answers of one server are served for another",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_ports() {
        let a = http::Request::get("http://localhost:8001/simple/?q=1").body(()).unwrap();
        let b = http::Request::get("http://localhost:8002/simple/?q=1").body(()).unwrap();
        assert!(key_for_request(&a) != key_for_request(&b));
    }
}
'''),
]
