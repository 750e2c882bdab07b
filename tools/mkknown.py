#!/usr/bin/env python3
"""Writes known_findings.json: findings not repaired, and the repaired ones."""
import json, os, subprocess
FIXED = [  # property, start of the commit subject, what failed
 ("P01", "fix: keep the exact source text", "an inner node turned into an error lost or changed part of its text (`#(a, a) = ..`-like patterns): the tree no longer spelled the source"),
 ("P03", "fix: lex a lone minus", "`-` alone in code was lexed as `-=`"),
 ("P05", "fix: return the union of two", "SyntaxSet.Union discarded its result, so sets like the argument starts were incomplete and valid code was rejected"),
 ("P03", "fix: treat U+FFFD", "a genuine U+FFFD in the text was taken for an invalid character boundary (lexer stuck or token cut short)"),
 ("P03", "fix: consume a single character", "EatIfFunc consumed every matching character instead of one"),
 ("P03", "fix: lex a decimal point at the end", "`1.` at the end of the text was lexed as int and dot"),
 ("P03", "fix: accept floating point", "`1e999` was reported as an invalid number"),
 ("P03", "fix: dedent and trim raw", "raw blocks were not dedented and trimmed as documented (lines kept or lost whitespace)"),
 ("P06", "fix: name the character", "`#{\\u00e9$...}`-like code with an invalid character reported its number instead of the character"),
 ("P02", "fix: return no expression instead", "`#(_: 1)` crashed the parser with a nil dereference"),
 ("P06", "fix: report duplicate empty", "`#(\"\": 1, \"\": 2)` was accepted although the key is duplicated"),
 ("P06", "fix: keep the text of string escapes", "`#(\"\\\\u{d800}\": 1, \"\\\\u{fffd}\": 2)` was rejected as a duplicate key"),
 ("X03", "fix: stop the common prefix", "Source.Replace kept counting equal characters after the first difference of the prefix or suffix (`abXcd` -> `abYcd`-like replacements corrupted the text or panicked)"),
 ("X02", "fix: report huge positions", "positions close to the largest integer overflowed and panicked instead of being reported as out of bounds"),
 ("X01", "fix: recompute the line of a carriage return", "an edit right behind a CR (inserting a LF, or deleting up to one) left the CR's line in the table"),
 ("E01", "fix: make incremental reparsing of blocks", "reparsing of blocks and markup tested its success the wrong way round: an edit inside a block whose reparse failed kept a damaged tree, and a successful one was thrown away"),
 ("F01", "fix: intern file ids", "NewFileId compared pointers: the same package and path gave a new identity each time"),
 ("F02", "fix: root and normalize virtual", "virtual paths were not rooted or normalised and absolute paths were joined below the file"),
 ("E01", "fix: do not separate a hash", "deleting the text between `#` and an expression kept the hash apart from it"),
 ("E01", "fix: take trivia at the end of nodes", "edits behind trailing trivia of a node (`= a //x` and the like) were reparsed without the trivia's influence on the following nodes"),
 ("E01", "fix: reparse the link in front", "an edit of the punctuation behind a link kept the old extent of the link"),
 ("E01", "fix: reparse everything behind a quote", "inserting `\"` behind a closed code expression turned the rest of the block into a string only in a full parse"),
 ("E03", "fix: leave a node unchanged when its new", "a failed renumbering left the new children in place with detached spans and the ancestors' lengths unchanged"),
 ("E04", "fix: saturate range spans", "a byte position of 2^23 or more overflowed into the other end of the range (0..2^23 came back as 1..0)"),
 ("N01", "fix: take backward iteration", "iterating the children of a linked node backwards started each child at its end, so offsets of previous siblings were wrong"),
 ("N03", "fix: leave a hash uncategorised", "a `#` with no expression behind it was categorised by whatever followed (or crashed)"),
 ("U02", "fix: read the paths of imports as Typst does", "paths with escapes were taken literally (or crashed the command with a panic in strconv.Unquote), and imports in parentheses were not seen"),
 ("U02", "fix: resolve packages in include statements", "`include` of a package was taken for a local file: the command failed, and it was not updated"),
 ("U01", "fix: keep the version of packages with no newer", "an import of a version not installed was moved to an older one"),
 ("U01", "fix: find every installed version", "versions whose directory is a link, and everything beside a file or directory that is no version, were not found"),
 ("U01", "fix: look packages up in their own namespace", "an import was updated to a version of another namespace"),
 ("U02", "fix: reject package manifests without required", "a manifest without entry point was accepted and the package's directory read as a file"),
 ("U02", "fix: take entry points of packages relative", "an entry point with a leading slash was read from the root of the file system"),
 ("O01", "fix: report missing packages instead", "offline-typ crashed with a panic when an imported package was not installed"),
 ("O02", "fix: write paths of vendored packages as Typst", "paths of packages were written with Go's escapes, which Typst does not know"),
 ("O01", "fix: report unreadable font directories", "a missing font directory crashed offline-typ"),
 ("O01", "fix: copy files loaded by data loading", "files loaded with csv, json, toml, yaml, xml and cbor were missing in the bundle"),
 ("O01", "fix: find bibliography styles behind", "a style was only copied when it was the first named argument"),
 ("O01", "fix: copy every file of bibliographies", "bibliographies given as an array were missing in the bundle"),
 ("O01", "fix: keep rewritten Typst files that are loaded", "a source file that is also read was put in the bundle without its imports rewritten"),
 ("O01", "fix: relocate paths relative to the root", "absolute paths in files of packages led out of the vendored package"),
 ("O02", "fix: report packages and files that would replace", "packages of the same name and version in two namespaces (or files of the project below libs/) silently replaced each other's files"),
 ('A01', 'fix: convert nodes to typed AST nodes instead', 'converting any node to its typed AST node crashed (nil pointer dereference)'),
 ('A01', 'fix: convert nodes to items, arguments', 'array, dictionary, argument, parameter and destructuring items and patterns were never converted from their nodes'),
 ('A01', 'fix: return placeholders for parts missing', 'accessors of constructs with missing parts crashed'),
 ('A02', 'fix: read decimal integers', 'decimal integers had the value 0'),
 ('A02', 'fix: split numeric values with exponents', '`1e3pt` had a wrong value and unit'),
 ('A01', 'fix: recognise the operator `not in`', 'the operator of `a not in b` was reported as `not`'),
 ('A01', 'fix: report only a comma at the end', 'every comma counted as trailing'),
 ('A01', 'fix: find parts of AST nodes behind white space', 'set conditions, show selectors, for iterables and attachments behind white space were not found'),
 ('A01', 'fix: return the new name of imported modules', '`import .. as x` had no new name'),
 ('A01', 'fix: return no initial value for let', '`let x` had x as its initial value'),
 ('A02', 'fix: return infinity for floats', '`1e309` had the value 0'),
 ('P07', 'fix: give math tokens with a node', 'identifiers and field accesses in math were errors'),
 ('P07', 'fix: take the math class of single', 'texts of several characters could be taken for delimiters'),
 ('P07', 'fix: treat letter numbers and marks', '`Ⅷ(a)/b` took the parentheses for grouping'),
 ('A01', 'fix: find only primes attached', 'a script of primes was reported as primes of the base as well'),
 ('B01', 'fix: locate the cursor zero', '`Locate(0)` yielded the end of the text instead of the cursor'),
 ('K02', 'fix: reject package manifests without a version', 'manifests without a version (taken for 0.0.0) and templates without path or entrypoint were accepted'),
 ('T01', 'fix: report nodes that cannot be numbered', 'numbering an inner node within too few numbers failed silently, leaving it unnumbered'),
 ('A01', 'fix: accept empty math', '`Math.was_deparenthesized` crashed on empty math'),
 ("C02", "fix: accept the root directory", "`-root /` was refused by update-typ and offline-typ: \"project root not a prefix of Typst file\""),
]
KNOWN = [
 {"property": "P02", "key": "deep-stack",
  "what": "a text with millions of levels of nesting (`#` and 4 000 000 times `(` or `#[`) overflows the goroutine stack, which ends the process"},
 {"property": "K02", "key": "manifest-date",
  "what": "a manifest with a date where a text or a list of texts is expected (`name = 1979-05-27`) panics inside go-toml v2 (reflect.Set: value of type toml.LocalDate is not assignable to type string)"},
]
EXTRA = os.path.join(os.path.dirname(__file__), "findings_extra.json")
if os.path.exists(EXTRA):
    d = json.load(open(EXTRA)); FIXED += [tuple(x) for x in d["fixed"]]; KNOWN += d["known"]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
out = []
for p, subj, what in FIXED:
    h = [l.split()[0] for l in log if l.split(" ", 1)[1].startswith(subj)]
    assert len(h) == 1, (subj, h)
    out.append(f"fixed: property={p} {h[0]} {what}")
path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json")
json.dump({"known": KNOWN, "fixed": out}, open(path, "w"), indent=1)
open(path, "a").write("\n")
