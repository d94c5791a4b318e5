EXPAND = "src/platform_tags/expand.rs"
S = [
 dict(id="p38-macos-minor", prop="P38", edits=[(EXPAND, ".map(|major| (major, 0))", ".map(|major| (major, minor))")],
      demo_file=EXPAND, needs="a platform tag of macOS 11 or later whose minor version is not 0",
      breaks="such a machine is taken to run macosx_N_minor wheels instead of the macosx_N_0 ones that exist",
      demo="""
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_minor() {
        let tags = expand_platform_tag("macosx_12_3_arm64");
        assert_eq!(tags[0], "macosx_12_0_arm64");
        for t in ["macosx_11_0_arm64", "macosx_11_0_universal2", "macosx_10_15_universal2"] {
            assert!(tags.iter().any(|x| x == t), "{} is missing", t);
        }
        assert!(tags.iter().all(|x| !x.contains("_3_") || x.contains("_10_3_")), "{:?}", tags);
    }
}
"""),
]

RESOLVE = "src/resolve.rs"
S += [
 dict(id="p39-false-markers", prop="P39", edits=[(RESOLVE, "        .map(|(k, v)| (k.to_string(), v))\n", "        .filter(|(_, v)| **v)\n        .map(|(k, v)| (k.to_string(), v))\n")],
      demo_file=RESOLVE, needs="a blueprint with a marker expression that was false for the interpreter",
      breaks="a saved blueprint forgets the marker expressions that were false, so reading it back gives another one",
      demo="""
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_markers() {
        let mut marker_expressions = HashMap::new();
        marker_expressions.insert("sys_platform == 'win32'".parse::<StandaloneMarkerExpr>().unwrap(), false);
        marker_expressions.insert("os_name == 'posix'".parse::<StandaloneMarkerExpr>().unwrap(), true);
        let b = Blueprint {
            pybi: PinnedPackage { name: "cpython_unofficial".try_into().unwrap(), version: "3.11".try_into().unwrap(), hashes: vec![] },
            wheels: vec![],
            marker_expressions,
        };
        let s = serde_json::to_string(&b).unwrap();
        let back: Blueprint = serde_json::from_str(&s).unwrap();
        assert_eq!(b.marker_expressions, back.marker_expressions, "{}", s);
        assert_eq!(b.pybi, back.pybi);
    }
}
"""),
 dict(id="p39-no-extras", prop="P39", edits=[(RESOLVE, "    pub requires_python: Specifiers,\n    pub extras: HashSet<Extra>,\n", "    pub requires_python: Specifiers,\n    #[serde(skip_serializing_if = \"HashSet::is_empty\")] pub extras: HashSet<Extra>,\n")],
      demo_file=RESOLVE, needs="a blueprint with a wheel that has no extras",
      breaks="a saved blueprint with a wheel without extras cannot be read back",
      demo="""
#[cfg(test)]
mod vpdemo {
    use super::*;
    #[test]
    fn vpdemo_extras() {
        for extras in [vec![], vec!["a"]] {
            let inner = WheelResolveMetadataInner {
                requires_dist: vec!["foo; os_name == 'posix'".parse().unwrap()],
                requires_python: ">=3.7".parse().unwrap(),
                extras: extras.into_iter().map(|e| e.try_into().unwrap()).collect(),
            };
            let b = WheelResolveMetadata { provenance: "somewhere".into(), inner };
            let s = serde_json::to_string(&b).unwrap();
            let back: WheelResolveMetadata = serde_json::from_str(&s).unwrap();
            assert_eq!(b.inner, back.inner, "{}", s);
            assert_eq!(b.provenance, back.provenance);
        }
    }
}
"""),
]
