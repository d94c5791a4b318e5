TREE = "src/tree.rs"
VER = "src/vocab/version.rs"
SPEC = "src/vocab/specifier.rs"
NAME = "src/vocab/package_name.rs"
REQ = "src/vocab/requirement.rs"
HTML = "src/package_db/simple_api/html.rs"
INFO = "src/package_db/simple_api/project_info.rs"
S = [
 dict(id="p02-del", prop="P02", edits=[(TREE, "piece.contains(|c: char| c.is_ascii_control())", "piece.contains(|c: char| c < ' ')")],
      demo_file=TREE, needs="an archive member whose name contains the DEL control character",
      breaks="the last control character passes the portability check",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_controls() {
        for c in (0u8..32).chain([127]) {
            let name = format!("dir/a{}b", c as char);
            let got: Result<NicePathBuf> = name.as_str().try_into();
            assert!(got.is_err(), "{:?} was accepted", name);
        }
    }
}
'''),
 dict(id="p04-target-order", prop="P04", edits=[(TREE, "symlinks.sort_unstable_by_key(|symlink| symlink.source.len());", "symlinks.sort_unstable_by_key(|symlink| symlink.target.len());")],
      demo_file=TREE, needs="a zip holding a link a -> b and, below it, a link a/c with a shorter target",
      breaks="links are made in the order of their targets' lengths, so a link below another may be made through it",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[derive(Default)]
    struct Log(Vec<String>);
    impl WriteTree for Log {
        fn mkdir(&mut self, _: &NicePathBuf) -> Result<()> {
            Ok(())
        }
        fn write_file(&mut self, _: &NicePathBuf, _: &mut dyn Read, _: bool) -> Result<()> {
            Ok(())
        }
        fn write_symlink(&mut self, s: &NiceSymlinkPaths) -> Result<()> {
            self.0.push(s.source.to_string());
            Ok(())
        }
    }
    #[test]
    fn vpdemo_order() {
        let mut blob = std::io::Cursor::new(Vec::<u8>::new());
        {
            let mut z = zip::ZipWriter::new(&mut blob);
            let o = zip::write::FileOptions::default();
            z.add_symlink("a", "other-directory", o).unwrap();
            z.add_symlink("a/c/d", "x", o).unwrap();
            z.add_symlink("a/c", "yyyyy", o).unwrap();
            z.finish().unwrap();
        }
        let mut log = Log::default();
        unpack_zip_carefully(&mut ZipArchive::new(blob).unwrap(), &mut log).unwrap();
        let depth: Vec<usize> = log.0.iter().map(|s| s.matches('/').count()).collect();
        assert_eq!(depth, vec![2, 1, 0], "{:?}", log.0);
    }
}
'''),
 dict(id="p05-hardlink", prop="P05", edits=[(TREE, "Symlink | Link | Char | Block | Fifo => {", "Symlink | Char | Block | Fifo => {")],
      demo_file=TREE, needs="an sdist that contains a hard link entry",
      breaks="a hard link in an sdist is unpacked as an empty file instead of being refused",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    struct Nowhere;
    impl WriteTree for Nowhere {
        fn mkdir(&mut self, _: &NicePathBuf) -> Result<()> {
            Ok(())
        }
        fn write_file(&mut self, _: &NicePathBuf, _: &mut dyn Read, _: bool) -> Result<()> {
            Ok(())
        }
        fn write_symlink(&mut self, _: &NiceSymlinkPaths) -> Result<()> {
            Ok(())
        }
    }
    #[test]
    fn vpdemo_kinds() {
        for kind in [tar::EntryType::Link, tar::EntryType::Symlink, tar::EntryType::Fifo] {
            let gz = flate2::write::GzEncoder::new(Vec::new(), flate2::Compression::fast());
            let mut b = tar::Builder::new(gz);
            let mut h = tar::Header::new_gnu();
            h.set_entry_type(kind);
            h.set_size(0);
            h.set_mode(0o644);
            b.append_link(&mut h, "pkg/b.py", "pkg/a.py").unwrap();
            let gz = b.into_inner().unwrap().finish().unwrap();
            assert!(unpack_tar_gz_carefully(std::io::Cursor::new(gz), Nowhere).is_err(), "{:?}", kind);
        }
    }
}
'''),
 dict(id="p24-dev", prop="P24", edits=[(VER, "self.0.pre.is_some() || self.0.dev.is_some()", "self.0.pre.is_some() || (self.0.dev.is_some() && self.0.post.is_some())")],
      demo_file=VER, needs="an index that offers a plain development release (1.2.dev3) newer than the last final release",
      breaks="development releases of a final version count as final, so they are chosen without having been allowed",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_pre() {
        for (v, pre) in [("1.2", false), ("1.2a1", true), ("1.2rc1.dev1", true), ("1.2.dev3", true), ("1.2.post1.dev3", true), ("1.2.post1", false), ("1.2+x", false)] {
            let ver: Version = v.parse().unwrap();
            assert_eq!(ver.is_prerelease(), pre, "{}", v);
        }
    }
}
'''),
 dict(id="p31-below-dev", prop="P31", edits=[(SPEC, "if (&version.0.pre, &version.0.dev) == (&None, &None) {", "if version.0.pre.is_none() {")],
      demo_file=SPEC, needs="a < requirement on a development release",
      breaks="< 1.0.dev3 also excludes the earlier development releases of 1.0",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_below() {
        for (v, c, ok) in [("1.0.dev3", "1.0.dev2", true), ("1.0.dev3", "1.0.dev3", false), ("1.0a2", "1.0a1", true), ("1.0", "1.0a1", false), ("1.0.post1.dev2", "1.0.post1.dev1", true)] {
            let s = Specifier { op: CompareOp::StrictlyLessThan, value: v.into() };
            assert_eq!(s.satisfied_by(&c.parse().unwrap()).unwrap(), ok, "{} {}", s, c);
        }
    }
}
'''),
 dict(id="p32-unicode-case", prop="P32", edits=[(NAME, 'Regex::new(r"(?i-u)^(', 'Regex::new(r"(?i)^(')],
      demo_file=NAME, needs="a name written with a character such as U+212A (Kelvin sign) that only Unicode folds to an ASCII letter",
      breaks="letters outside ASCII that fold to ASCII ones are accepted, and are not normalized",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_kelvin() {
        for (n, ok) in [("kelvin", true), ("Kelvin", true), ("\\u{212a}elvin", false), ("mi\\u{17f}t", false), ("na\\u{ef}ve", false)] {
            let r: Result<PackageName> = n.try_into();
            assert_eq!(r.is_ok(), ok, "{}", n);
        }
    }
}
'''),
 dict(id="p35-one-side", prop="P35", edits=[(REQ, "if let Ok(extra) = Extra::try_from(lhs_val) {\n                            lhs_holder = extra.normalized().to_string();\n                            lhs_val = lhs_holder.as_str();", "if let Ok(extra) = Extra::try_from(lhs_val) {\n                            lhs_holder = extra.as_given().to_string();\n                            lhs_val = lhs_holder.as_str();")],
      demo_file=REQ, needs="a marker with the variable on the right: 'Some_Extra' == extra",
      breaks="an extra is compared by its spelling when the literal stands on the left",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_extra() {
        let env = HashMap::from([("extra".to_string(), "some-extra".to_string())]);
        for m in ["extra == 'Some_Extra'", "'Some_Extra' == extra", "'some.EXTRA' == extra", "extra == 'some--extra'"] {
            let r: PackageRequirement = format!("foo; {}", m).as_str().try_into().unwrap();
            assert!(r.env_marker_expr.as_ref().unwrap().eval(&env).unwrap(), "{}", m);
        }
    }
}
'''),
 dict(id="p54-yanked", prop="P54", edits=[(HTML, "        let yanked = match yanked_reason {\n            None => Yanked {", "        let yanked = match yanked_reason.filter(|reason| !reason.is_empty()) {\n            None => Yanked {")],
      demo_file=HTML, needs="a link whose data-yanked attribute is present but empty",
      breaks="a file yanked without a reason is read as not yanked",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_yanked() {
        let page = r#"<a href="a-1.0.tar.gz" data-yanked="why">a</a><a href="a-1.1.tar.gz" data-yanked="">a</a><a href="a-1.2.tar.gz" data-yanked>a</a><a href="a-1.3.tar.gz">a</a>"#;
        let pi = parse_html(&Url::parse("https://example.com/a/").unwrap(), "text/html", page.as_bytes()).unwrap();
        let got: Vec<bool> = pi.artifacts.iter().map(|a| a.yanked.yanked).collect();
        assert_eq!(got, vec![true, true, true, false]);
    }
}
'''),
 dict(id="p22-major", prop="P22", edits=[(INFO, '!pi.meta.version.starts_with("1.")', '!pi.meta.version.starts_with(\'1\')')],
      demo_file=INFO, needs="an index page that declares repository version 10.0",
      breaks="pages of a later major version whose number happens to begin with 1 are taken as understood",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_version() {
        for (v, ok) in [("1.0", true), ("1.7", true), ("2.0", false), ("10.0", false), ("11.2", false)] {
            let pi = ProjectInfo { meta: Meta { version: v.into() }, artifacts: vec![] };
            assert_eq!(pack_by_version(pi, &mut Default::default()).is_ok(), ok, "{}", v);
        }
    }
}
'''),
] + [
 dict(id="p34-nested-extra", prop="P34", edits=[("src/vocab/reqparse.rs", "\"(\" m:marker(parse_extra) _ \")\"", "\"(\" m:marker(ParseExtra::Allowed) _ \")\"")],
      demo_file=REQ, needs="a user's requirement whose marker uses `extra` inside parentheses",
      breaks="`extra` is accepted in a user's requirement or a standalone marker as long as it is parenthesised",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_extra() {
        for m in ["extra == 'a'", "(extra == 'a')", "os_name == 'nt' and (extra == 'a' or os_name == 'x')"] {
            assert!(UserRequirement::try_from(format!("foo; {}", m).as_str()).is_err(), "{}", m);
            assert!(PackageRequirement::try_from(format!("foo; {}", m).as_str()).is_ok(), "{}", m);
        }
    }
}
'''),
 dict(id="p37-tab", prop="P37", edits=[("src/vocab/rfc822ish.rs", "quiet!{line_ending() [' ' | '\\t']}", "quiet!{line_ending() \" \"}")],
      demo_file="src/vocab/rfc822ish.rs", needs="a header continued on a line that begins with a tab",
      breaks="files with continuation lines that begin with a tab are refused",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_continued() {
        for ws in [" ", "\\t", "  ", "\\t "] {
            let text = format!("A: one\\n{}two\\nB: c\\n", ws);
            let mut got = RFC822ish::parse(&text).unwrap();
            assert_eq!(got.take_all("A"), vec![format!("one\\n{}two", ws)]);
            assert_eq!(got.take_all("B"), vec!["c"]);
        }
    }
}
'''),
 dict(id="p37-repeated", prop="P37", edits=[("src/vocab/rfc822ish.rs", "            1 => Ok(values.pop()),\n", "            1 => Ok(values.pop()),\n            _ if values[1..].iter().all(|v| v.is_empty()) => Ok(Some(values.swap_remove(0))),\n")],
      demo_file="src/vocab/rfc822ish.rs", needs="a field that may stand once and stands twice, empty the second time",
      breaks="a repeated field is accepted if it is empty where it is repeated",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_repeated() {
        for text in ["Name: a\\nName: b\\n", "Name: a\\nName:\\n", "Name:\\nName: a\\n"] {
            assert!(RFC822ish::parse(text).unwrap().take_the("Name").is_err(), "{}", text);
        }
        assert_eq!(RFC822ish::parse("Name:\\n").unwrap().take_the("Name").unwrap(), "");
    }
}
'''),
 dict(id="p44-long-number", prop="P44", edits=[("src/vocab/artifact_name.rs", "(^[0-9]*)(.*)$", "(^[0-9]{0,9})(.*)$")],
      demo_file="src/vocab/artifact_name.rs", needs="a build number of ten digits",
      breaks="of a build number of ten digits the last one is taken for the build's name, so that it sorts wrongly",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_number() {
        for (tag, num, name) in [("1", 1, ""), ("20231231x", 20231231, "x"), ("1700000000", 1700000000, ""), ("4294967295ab", u32::MAX, "ab")] {
            let n: WheelName = format!("foo-1.0-{}-py3-none-any.whl", tag).as_str().try_into().unwrap();
            assert_eq!((n.build_number, n.build_name.as_str()), (Some(num), name));
        }
    }
}
'''),
 dict(id="p44-tar-any-gz", prop="P44", edits=[("src/vocab/artifact_name.rs", r"\.(zip|tar\.gz)$", r"\.(zip|tar.gz)$")],
      demo_file="src/vocab/artifact_name.rs", needs="an index that lists a file whose name ends like .tar-gz or .tar_gz",
      breaks="a file called foo-1.0.tar_gz is taken for an sdist, and the program panics",
      demo='''
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_sdist() {
        for (name, ok) in [("foo-1.0.tar.gz", true), ("foo-1.0.zip", true), ("foo-1.0.tar_gz", false), ("foo-1.0.tarxgz", false), ("foo-1.0.tar.bz2", false)] {
            let got = std::panic::catch_unwind(|| SdistName::try_from(name).is_ok());
            assert_eq!(got.ok(), Some(ok), "{}", name);
        }
    }
}
'''),
]
