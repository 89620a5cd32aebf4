//! Genuine defects that are recorded rather than repaired, each as the specific history that fails.
//! The histories are fixed; a listed finding is printed when its history still fails in the way described,
//! and no line is printed once it no longer does. The seeded histories stay clear of exactly these
//! situations (see DESIGN.md), so anything else that breaks the same property is still reported.
use folia::*;

const DOC: &str = r#"<?xml version="1.0" encoding="utf-8"?>
<FoLiA xmlns="http://ilk.uvt.nl/folia" xmlns:xlink="http://www.w3.org/1999/xlink" xml:id="known" version="2.4.0" generator="sim"><metadata type="native"><annotations><text-annotation/><sentence-annotation/><token-annotation/><entity-annotation set="e"/></annotations></metadata>
<text xml:id="t"><s xml:id="s"><w xml:id="w1"><t>a</t></w><w xml:id="w2"><t>b</t></w><entities set="e"><entity xml:id="e1" set="e" class="x"><wref id="w1"/><wref id="w2"/></entity></entities></s></text></FoLiA>"#;

fn doc() -> Option<Document> { Document::from_str(DOC, DocumentProperties::default()).ok() }

/// Detaching a word which a span that remains refers to: the saved file refers to an identifier that is not in it.
fn dangling() -> Option<String> {
    let mut d = doc()?;
    let w = d.get_element_key_by_id("w1")?;
    d.detach_element(w).ok()?;
    let b = d.xml(0, 0).ok()?;
    match Document::from_str(std::str::from_utf8(&b).ok()?, DocumentProperties::default()) {
        Err(_) => Some("a document is saved but its file is refused after detach_element() of a word that a remaining span annotation refers to".into()),
        Ok(_) => None,
    }
}

/// Detaching a span annotation: its words still lead to it.
fn stale() -> Option<String> {
    let mut d = doc()?;
    let (w, e) = (d.get_element_key_by_id("w1")?, d.get_element_key_by_id("e1")?);
    d.detach_element(e).ok()?;
    let word = d.get_element(w)?;
    let found = word.get_annotations(AnnotationType::ENTITY, Cmp::Any, Recursion::No).any(|x| x.key() == Some(e));
    if found { Some("the words of a span annotation still lead to it after detach_element() of that span annotation".into()) } else { None }
}

/// The scripts of the findings listed for a property; the lines to print.
pub fn run(prop: &str) -> Vec<String> {
    let scripts: Vec<(&str, &str, fn() -> Option<String>)> = vec![("C01", "detached-word", dangling), ("C15", "detached-span", stale)];
    let listed = std::fs::read_to_string(format!("{}/known-findings.txt", std::env::var("FOLIA_VERIF").unwrap_or_else(|_| "/verif".into()))).unwrap_or_default();
    scripts.into_iter().filter(|s| s.0 == prop && listed.lines().any(|l| l.starts_with(&format!("known: property={} id={} ", s.0, s.1))))
        .filter_map(|s| std::panic::catch_unwind(s.2).ok().flatten())
        .map(|l| format!("KNOWN-FINDING: property={} {}", prop, l)).collect()
}

/// The same in a process of its own: whatever the library does there, the search goes on.
pub fn apart(prop: &str) -> Vec<String> {
    let exe = match std::env::current_exe() { Ok(e) => e, Err(_) => return vec![] };
    let mut c = match std::process::Command::new(exe).args(["known", prop]).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn() { Ok(c) => c, Err(_) => return vec![] };
    for _ in 0..200 {
        match c.try_wait() { Ok(None) => std::thread::sleep(std::time::Duration::from_millis(50)), _ => break }
    }
    let _ = c.kill();
    c.wait_with_output().map(|o| String::from_utf8_lossy(&o.stdout).lines().filter(|l| l.starts_with("KNOWN-FINDING: ")).map(|l| l.to_string()).collect()).unwrap_or_default()
}
