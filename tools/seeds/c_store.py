KVS = "src/kvstore.rs"
LAZY = "src/package_db/http/lazy_remote_file.rs"
TRAMP = "src/trampolines/mod.rs"
FMT = "src/vocab/artifact_formats.rs"
ENV = "src/env.rs"
RES = "src/resolve.rs"
DB = "src/package_db/package_db.rs"
S = [
 dict(id="p11-in-place", prop="P11", edits=[(KVS, "            let tmp = lock.tempdir()?;\n            f(tmp.as_ref())?;\n            fs::rename(tmp.into_path(), &*lock)?;", "            let path: &Path = &lock;\n            fs::create_dir_all(path)?;\n            f(path)?;")],
      demo_file=KVS, needs="an unpacking that fails or is interrupted half way, followed by a second run",
      breaks="a directory entry is filled in place, so a failed attempt leaves a partial entry that the next run takes for complete",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_partial() {
        let tmp = tempfile::tempdir().unwrap();
        let store = KVDirStore::new(tmp.path()).unwrap();
        let key = b"k".as_slice();
        let r = store.get_or_set(&key, |p| {
            fs::write(p.join("one"), b"1")?;
            bail!("interrupted")
        });
        assert!(r.is_err());
        let p = store
            .get_or_set(&key, |p| {
                fs::write(p.join("one"), b"1")?;
                fs::write(p.join("two"), b"2")?;
                Ok(())
            })
            .unwrap();
        assert!(p.join("two").exists());
    }
}
'''),
 dict(id="p12-probe-unlocked", prop="P12", edits=[(KVS, "    retry_interrupted(|| lock.lock_exclusive())?;", "    if let LockMode::Lock = mode {\n        retry_interrupted(|| lock.lock_exclusive())?;\n    }")],
      demo_file=KVS, needs="one process that looks an entry up while another holds it",
      breaks="the probing lookup reads the entry without taking its lock",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_wait() {
        let tmp = tempfile::tempdir().unwrap();
        let store = KVFileStore::new(tmp.path()).unwrap();
        let held = store.lock(&b"k".as_slice()).unwrap();
        let (tx, rx) = std::sync::mpsc::channel();
        let base = tmp.path().to_path_buf();
        let t = std::thread::spawn(move || {
            let store = KVFileStore::new(&base).unwrap();
            let l = store.lock_if_exists(&b"k".as_slice());
            tx.send(l.is_some()).unwrap();
        });
        // while the lock is held nobody else may get it
        assert!(rx.recv_timeout(std::time::Duration::from_millis(700)).is_err());
        drop(held);
        assert!(rx.recv_timeout(std::time::Duration::from_secs(20)).unwrap());
        t.join().unwrap();
    }
}
'''),
 dict(id="p20-assumed-offset", prop="P20", edits=[(LAZY, "            RangeResponse::Partial {\n                offset, mut data, ..\n            } => {", "            RangeResponse::Partial { mut data, .. } => {")],
      demo_file=LAZY, needs="a server (or proxy) that answers a range request with a larger, aligned range",
      breaks="the bytes of a partial response are filed under the offset asked for instead of the offset the server names",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    use crate::kvstore::KVFileStore;
    use std::io::{BufRead, BufReader};
    const SIZE: usize = 40_000;
    const ALIGN: usize = 4096;
    fn data() -> Vec<u8> {
        (0..SIZE).map(|i| (i / 256 % 251) as u8).collect()
    }
    // answers range requests with the range rounded down to a block
    fn serve() -> Url {
        let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
        let url = Url::parse(&format!("http://{}/f", l.local_addr().unwrap())).unwrap();
        std::thread::spawn(move || {
            for c in l.incoming() {
                let mut c = c.unwrap();
                let mut r = BufReader::new(c.try_clone().unwrap());
                let (mut head, mut from, mut to) = (false, 0usize, 0usize);
                loop {
                    let mut line = String::new();
                    if r.read_line(&mut line).unwrap() == 0 || line.trim().is_empty() {
                        break;
                    }
                    if line.starts_with("HEAD") {
                        head = true;
                    }
                    let low = line.to_lowercase();
                    if let Some(v) = low.strip_prefix("range: bytes=") {
                        let (a, b) = v.trim().split_once('-').unwrap();
                        from = a.parse().unwrap();
                        to = b.parse::<usize>().unwrap().min(SIZE - 1);
                    }
                }
                if !head {
                    from = from / ALIGN * ALIGN;
                }
                let body = &data()[from..=to];
                write!(c, "HTTP/1.1 206 Partial Content\\r\\nConnection: close\\r\\nContent-Range: bytes {}-{}/{}\\r\\nContent-Length: {}\\r\\n\\r\\n", from, to, SIZE, body.len()).unwrap();
                if !head {
                    c.write_all(body).ok();
                }
            }
        });
        url
    }
    #[test]
    fn vpdemo_offset() {
        let tmp = tempfile::tempdir().unwrap();
        let http = HttpInner::new(
            KVFileStore::new(&tmp.path().join("http")).unwrap(),
            KVFileStore::new(&tmp.path().join("hashed")).unwrap(),
        );
        let mut lazy = LazyRemoteFile::new(Rc::new(http), &serve()).unwrap();
        lazy.seek(SeekFrom::Start(20_001)).unwrap();
        let mut buf = [0u8; 300];
        lazy.read_exact(&mut buf).unwrap();
        assert_eq!(buf[..], data()[20_001..20_301]);
    }
}
'''),
 dict(id="p47-gui-check", prop="P47", edits=[(TRAMP, 'UNIX_TEMPLATE.replace("POSY_PYTHON", "POSY_PYTHONW")', 'UNIX_TEMPLATE.replacen("POSY_PYTHON", "POSY_PYTHONW", 2)')],
      demo_file=TRAMP, needs="a GUI entry point started in an environment whose POSY_PYTHON and POSY_PYTHONW differ",
      breaks="the launcher of a GUI script checks for the windowed interpreter but runs the console one",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    #[cfg(unix)]
    fn vpdemo_gui() {
        use std::os::unix::fs::PermissionsExt;
        let tmp = tempfile::tempdir().unwrap();
        for (name, say) in [("py", "console"), ("pyw", "windowed")] {
            let p = tmp.path().join(name);
            std::fs::write(&p, format!("#!/bin/sh\\necho {}\\n", say)).unwrap();
            std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o755)).unwrap();
        }
        let maker = TrampolineMaker::new(FindPython::FromEnv, ScriptPlatform::Unix);
        for (kind, expect) in [(ScriptType::GUI, "windowed\\n"), (ScriptType::Console, "console\\n")] {
            let script = tmp.path().join("script");
            std::fs::write(&script, maker.unix_trampoline(b"pass\\n", kind)).unwrap();
            let out = std::process::Command::new("/bin/sh")
                .arg(&script)
                .env("POSY_PYTHON", tmp.path().join("py"))
                .env("POSY_PYTHONW", tmp.path().join("pyw"))
                .output()
                .unwrap();
            assert_eq!(String::from_utf8_lossy(&out.stdout), expect);
        }
    }
}
'''),
 dict(id="p51-unknown-category", prop="P51", edits=[(FMT, "            .paths\n            .get(category)\n            .ok_or_else(", "            .paths\n            .get(category)\n            .or_else(|| self.paths.get(\"data\"))\n            .ok_or_else(")],
      demo_file=FMT, needs="a wheel with members in a .data category posy does not install (headers)",
      breaks="members of a category without a place are put into the root of the environment instead of being refused",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    use crate::trampolines::{FindPython, ScriptPlatform};
    #[derive(Default)]
    struct Log(Vec<String>);
    impl WriteTree for Log {
        fn mkdir(&mut self, p: &NicePathBuf) -> Result<()> {
            self.0.push(p.to_string());
            Ok(())
        }
        fn write_file(&mut self, p: &NicePathBuf, _: &mut dyn Read, _: bool) -> Result<()> {
            self.0.push(p.to_string());
            Ok(())
        }
        fn write_symlink(&mut self, _: &crate::tree::NiceSymlinkPaths) -> Result<()> {
            Ok(())
        }
    }
    fn wheel() -> Wheel {
        let mut blob = std::io::Cursor::new(Vec::<u8>::new());
        {
            let mut z = zip::ZipWriter::new(&mut blob);
            let o = zip::write::FileOptions::default();
            for (n, c) in [
                ("foo/__init__.py", ""),
                ("foo-1.0.data/headers/foo.h", "int x;"),
                ("foo-1.0.dist-info/WHEEL", "Wheel-Version: 1.0\\nRoot-Is-Purelib: true\\n"),
                ("foo-1.0.dist-info/METADATA", "Metadata-Version: 2.1\\nName: foo\\nVersion: 1.0\\n"),
            ] {
                z.start_file(n, o).unwrap();
                z.write_all(c.as_bytes()).unwrap();
            }
            z.finish().unwrap();
        }
        Wheel::new("foo-1.0-py3-none-any.whl".try_into().unwrap(), Box::new(blob)).unwrap()
    }
    #[test]
    fn vpdemo_headers() {
        let mut paths: HashMap<String, NicePathBuf> = HashMap::from([
            ("scripts".into(), "bin".try_into().unwrap()),
            ("purelib".into(), "lib".try_into().unwrap()),
            ("platlib".into(), "lib".try_into().unwrap()),
            ("data".into(), ".".try_into().unwrap()),
        ]);
        let maker = TrampolineMaker::new(FindPython::FromEnv, ScriptPlatform::Both);
        let mut log = Log::default();
        assert!(wheel().unpack(&paths, &maker, &mut log).is_err(), "{:?}", log.0);
        paths.insert("headers".into(), "include".try_into().unwrap());
        let mut log = Log::default();
        wheel().unpack(&paths, &maker, &mut log).unwrap();
        assert!(log.0.contains(&"include/foo.h".to_string()), "{:?}", log.0);
    }
}
'''),
 dict(id="p10-release-only", prop="P10", edits=[(FMT, "        if metadata.version != self.name.version {\n            bail!(\n                \"version mismatch between {dist_info}/METADATA", "        if metadata.version.0.release != self.name.version.0.release {\n            bail!(\n                \"version mismatch between {dist_info}/METADATA")],
      demo_file=FMT, needs="a wheel whose METADATA says 1.0rc1 while its file name says 1.0",
      breaks="only the release numbers of the METADATA's and the file name's version are compared",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    fn wheel(version: &str) -> Wheel {
        let mut blob = std::io::Cursor::new(Vec::<u8>::new());
        {
            let mut z = zip::ZipWriter::new(&mut blob);
            let o = zip::write::FileOptions::default();
            let meta = format!("Metadata-Version: 2.1\\nName: foo\\nVersion: {}\\n", version);
            for (n, c) in [
                ("foo/__init__.py", ""),
                ("foo-1.0.dist-info/WHEEL", "Wheel-Version: 1.0\\nRoot-Is-Purelib: true\\n"),
                ("foo-1.0.dist-info/METADATA", meta.as_str()),
            ] {
                z.start_file(n, o).unwrap();
                z.write_all(c.as_bytes()).unwrap();
            }
            z.finish().unwrap();
        }
        Wheel::new("foo-1.0-py3-none-any.whl".try_into().unwrap(), Box::new(blob)).unwrap()
    }
    #[test]
    fn vpdemo_versions() {
        assert!(wheel("1.0").metadata().is_ok());
        for v in ["1.0rc1", "1.0.post2", "1.0+local", "1!1.0", "1.0.dev1", "1.1"] {
            assert!(wheel(v).metadata().is_err(), "{}", v);
        }
    }
}
'''),
 dict(id="p07-no-hashes", prop="P07", edits=[(ENV, "} else if !pin.hashes.contains(ai.hash.as_ref().unwrap()) {", "} else if !pin.hashes.is_empty() && !pin.hashes.contains(ai.hash.as_ref().unwrap()) {")],
      demo_file=ENV, needs="a pin that records no hash at all (every file it was resolved from lacked one)",
      breaks="a pin without hashes authorises whatever file the index offers now",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_unauthorised() {
        let tmp = tempfile::tempdir().unwrap();
        let t = tmp.path();
        fs::create_dir_all(t.join("www/foo")).unwrap();
        fs::write(
            t.join("www/foo/index.html"),
            "<a href=\\"foo-1.0-py3-none-any.whl#sha256=0000000000000000000000000000000000000000000000000000000000000000\\">x</a>",
        )
        .unwrap();
        let server = crate::test_util::StaticHTTPServer::new(t.join("www"));
        let forest = EnvForest::new(&t.join("forest")).unwrap();
        let store = KVDirStore::new(&t.join("store")).unwrap();
        let db = PackageDB::new(&[server.url("/")], &t.join("cache"), &forest, &store).unwrap();
        let meta: PybiCoreMetadata = concat!(
            "Metadata-Version: 2.1\\nName: cpython\\nVersion: 3.11\\n",
            "Pybi-Environment-Marker-Variables: {}\\nPybi-Paths: {}\\nPybi-Wheel-Tag: py3-none-any\\n\\n"
        )
        .as_bytes()
        .try_into()
        .unwrap();
        let platform = PybiPlatform::new("linux_x86_64").wheel_platform(&meta).unwrap();
        let mut pin = PinnedPackage { name: "foo".parse().unwrap(), version: "1.0".parse().unwrap(), hashes: vec![] };
        assert!(pick_pinned_binary::<Wheel>(&db, &[&platform], &pin).is_err());
        pin.hashes.push("sha256=0000000000000000000000000000000000000000000000000000000000000000".parse().unwrap());
        assert!(pick_pinned_binary::<Wheel>(&db, &[&platform], &pin).is_ok());
    }
}
'''),
 dict(id="p45-user-site", prop="P45", edits=[(ENV, "        if let Cow::Borrowed(_) = new_site_py {\n            bail!(\"pybi's site.py has unexpected structure; couldn't disable user site-packages\");\n        }\n        fs::write(stdlib.join(\"site.py\"), &new_site_py)?;", "        if let Cow::Owned(new_site_py) = new_site_py {\n            fs::write(stdlib.join(\"site.py\"), new_site_py)?;\n        } else {\n            warn!(\"pybi's site.py has unexpected structure; couldn't disable user site-packages\");\n        }")],
      demo_file=ENV, needs="an interpreter whose site.py sets ENABLE_USER_SITE in another form",
      breaks="an interpreter whose user site could not be disabled is used all the same",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_site() {
        let tmp = tempfile::tempdir().unwrap();
        let meta: PybiCoreMetadata = concat!(
            "Metadata-Version: 2.1\\nName: cpython\\nVersion: 3.11\\n",
            "Pybi-Environment-Marker-Variables: {\\"python_version\\": \\"3.11\\"}\\n",
            "Pybi-Paths: {\\"stdlib\\": \\"lib/py\\", \\"purelib\\": \\"lib/py/site\\", \\"scripts\\": \\"bin\\"}\\n",
            "Pybi-Wheel-Tag: py3-none-any\\n\\n"
        )
        .as_bytes()
        .try_into()
        .unwrap();
        for (site, ok) in [("X = 1\\nENABLE_USER_SITE = None\\n", true), ("ENABLE_USER_SITE: bool = None\\n", false)] {
            fs::create_dir_all(tmp.path().join("lib/py/site")).unwrap();
            fs::write(tmp.path().join("lib/py/site.py"), site).unwrap();
            assert_eq!(EnvForest::munge_unpacked_pybi(tmp.path(), &meta).is_ok(), ok, "{}", site);
        }
    }
}
'''),
 dict(id="p53-first-named", prop="P53", edits=[(DB, "            if let Some(cm) = self.metadata_from_cache(ai) {\n                return Ok((ai, T::parse_metadata(cm.as_slice())?));", "            if let Some(cm) = self.metadata_from_cache(ai) {\n                return Ok((artifacts[0].borrow(), T::parse_metadata(cm.as_slice())?));")],
      demo_file=DB, needs="a release with several files of which not the first has cached metadata",
      breaks="cached metadata is attributed to the first file of the release instead of the file it came from",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_provenance() {
        let tmp = tempfile::tempdir().unwrap();
        let t = tmp.path();
        std::fs::create_dir_all(t.join("www/foo")).unwrap();
        std::fs::write(
            t.join("www/foo/index.html"),
            format!(
                "<a href=\\"foo-1.0-1-py3-none-any.whl#sha256={}\\">x</a><a href=\\"foo-1.0-2-py3-none-any.whl#sha256={}\\">x</a>",
                "00".repeat(32),
                "11".repeat(32)
            ),
        )
        .unwrap();
        let server = crate::test_util::StaticHTTPServer::new(t.join("www"));
        let forest = EnvForest::new(&t.join("forest")).unwrap();
        let store = KVDirStore::new(&t.join("store")).unwrap();
        let db = PackageDB::new(&[server.url("/")], &t.join("cache"), &forest, &store).unwrap();
        let ais = db.artifacts_for_version(&"foo".parse().unwrap(), &"1.0".parse().unwrap()).unwrap();
        assert_eq!(ais.len(), 2);
        db.put_metadata_in_cache(&ais[1], b"Metadata-Version: 2.1\\nName: foo\\nVersion: 1.0\\n").unwrap();
        let (ai, _) = db.get_metadata::<Wheel, _>(ais, None).unwrap();
        assert_eq!(ai.url, ais[1].url);
    }
}
'''),
 dict(id="p52-first-index", prop="P52", edits=[(DB, "                if let Some(pi) = maybe_pi {\n                    pack_by_version(pi, &mut packed)?;\n                }", "                if let Some(pi) = maybe_pi {\n                    pack_by_version(pi, &mut packed)?;\n                    if !packed.is_empty() {\n                        break;\n                    }\n                }")],
      demo_file=DB, needs="two indexes that both know the package",
      breaks="the first index that knows a package hides the files of all later ones",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_indexes() {
        let tmp = tempfile::tempdir().unwrap();
        let t = tmp.path();
        for (d, v) in [("a", "1.0"), ("b", "2.0"), ("c", "1.5")] {
            let dir = t.join("www").join(d).join("foo");
            std::fs::create_dir_all(&dir).unwrap();
            std::fs::write(dir.join("index.html"), format!("<a href=\\"foo-{}.tar.gz\\">x</a>", v)).unwrap();
        }
        let server = crate::test_util::StaticHTTPServer::new(t.join("www"));
        let forest = EnvForest::new(&t.join("forest")).unwrap();
        let store = KVDirStore::new(&t.join("store")).unwrap();
        let urls = [server.url("a/"), server.url("missing/"), server.url("b/"), server.url("c/")];
        let db = PackageDB::new(&urls, &t.join("cache"), &forest, &store).unwrap();
        let got: Vec<String> = db.available_artifacts(&"Foo".parse().unwrap()).unwrap().keys().map(|v| v.to_string()).collect();
        assert_eq!(got, vec!["2.0", "1.5", "1.0"]);
    }
}
'''),
 dict(id="p27-first-extra", prop="P27", edits=[(RES, "            let mut maybe_extras: Vec<Option<Extra>> =\n                req.extras.iter().map(|e| Some(e.clone())).collect();\n            if maybe_extras.is_empty() {\n                maybe_extras.push(None);\n            }", "            let mut maybe_extras: Vec<Option<Extra>> =\n                req.extras.iter().map(|e| Some(e.clone())).collect();\n            maybe_extras.dedup_by_key(|e| e.as_ref().map(|e| e.normalized().len()));\n            if maybe_extras.is_empty() {\n                maybe_extras.push(None);\n            }")],
      demo_file=RES, needs="a requirement that names two extras of the same length next to each other",
      breaks="of neighbouring extras whose names are equally long only the first is required",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    use crate::env::EnvForest;
    use crate::kvstore::KVDirStore;
    #[test]
    fn vpdemo_extras() {
        let tmp = tempfile::tempdir().unwrap();
        let t = tmp.path();
        let forest = EnvForest::new(&t.join("forest")).unwrap();
        let store = KVDirStore::new(&t.join("store")).unwrap();
        let db = PackageDB::new(&[], &t.join("cache"), &forest, &store).unwrap();
        let brief = Brief { python: "cpython".try_into().unwrap(), requirements: vec![], allow_pre: Default::default() };
        let env: HashMap<String, String> = HashMap::new();
        let hints = VersionHints::new();
        let wb = WheelBuilder::new(&db, &brief.python.name, &VERSION_ZERO, PybiPlatform::native_platforms().unwrap(), &[]).unwrap();
        let state = PubgrubState {
            db: &db,
            env: &env,
            brief: &brief,
            version_hints: &hints,
            wheel_builder: &wb,
            marker_exprs: Default::default(),
            python_full_version: "3.11.0".parse().unwrap(),
            expected_metadata: Default::default(),
            versions: Default::default(),
        };
        let reqs: Vec<PackageRequirement> = vec!["foo[bar,baz,quux] >= 1".try_into().unwrap()];
        let mut dc: DependencyConstraints<ResPkg, Version> = Default::default();
        state.requirements_to_pubgrub(reqs.iter(), &mut dc, None).unwrap();
        for e in ["bar", "baz", "quux"] {
            let pkg = ResPkg::Package("foo".parse().unwrap(), Some(e.parse().unwrap()));
            assert!(dc.get(&pkg).is_some(), "{}", e);
        }
    }
}
'''),
]
