#!/usr/bin/env python3
"""The properties: writes properties.jsonl and MANIFEST.json (run without arguments)."""
import json, os

V = os.path.dirname(os.path.abspath(__file__))
P = []


def p(id, title, statement, over, text, tests, files, mech, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mech=[dict(name=n, where=w) for n, w in mech], note=note))


LIB = "pfp/src/"
CLI = "cli/src/"

p("C01", "A generated password is the one the PfP algorithm defines, of the chosen kind",
  "For every output of the key derivation, every length from 4 to 24 and every non-empty choice of character types, the generated password has exactly the requested length, uses only characters of the chosen types with at least one of each (as long as the length allows), and is the very password the published PfP algorithm yields. The same inputs give the same password in every version, so that passwords on other devices keep matching.",
  ["inputs"], "every byte string the key derivation can return, every length and character set within the bounds",
  "The unit tests compare about ten fixed passwords; the property is about all derived bytes, for which a wrong alphabet entry or a wrong rule for the last characters shows only on some.",
  [LIB + "crypto.rs", LIB + "storage_types/password.rs", LIB + "passwords.rs"], [("deriving the password", LIB + "crypto.rs")],
  "all derived bytes symbolic; lengths and character sets enumerated; scrypt is an ideal function")
p("C02", "A generated password depends on its own parameters only, and on all of them",
  "A generated password is derived by scrypt (N=32768, r=8, p=1) from the primary password and from the site, the user name and, unless it is the default one, the revision, and nothing else: no other entry, order of operations, alias or random number influences it. The sites an alias or a www prefix stands for give the password of the site itself.",
  ["inputs", "histories"], "every primary password, site, name, revision, length and character set within the bounds",
  "The tests use one primary password and few sites; whether two parameters can be confused or one be ignored is a question about all of them.",
  [LIB + "passwords.rs", LIB + "crypto.rs"], [("derivation salt", LIB + "passwords.rs"), ("derivation", LIB + "crypto.rs")],
  "symbolic strings of bounded length; the parameters that reach the (ideal) scrypt are compared with the documented ones")
p("C03", "A recovery code decodes to exactly the stored password it was made from",
  "For every stored password and primary password, the recovery code printed for it decodes, under the same primary password, to exactly that password, with no character lost, added or changed, whatever the letter case and punctuation it is typed with. This includes the empty password.",
  ["inputs"], "every stored password (all lengths within the bound, all bytes), every salt and nonce drawn, upper and lower case, with and without separators",
  "The unit tests decode a couple of fixed codes with a fixed salt and nonce; lengths, padding and the randomness are inputs they do not vary.",
  [LIB + "recovery_codes.rs", LIB + "crypto.rs"], [("generate/decode", LIB + "recovery_codes.rs")],
  "passwords, nonces and ciphertexts symbolic; number of lines bounded")
p("C04", "A damaged recovery code is never accepted, and the damaged line is named",
  "A recovery code in which a symbol is wrong, two lines are swapped, a line is left out, repeated, cut short or extended is not decoded: the error says what is wrong and at which line (counted from zero, so that the lines before it can be kept). Only a line that by chance has the right checksum may pass the line check, and then decryption has to fail or give the stored password.",
  ["inputs"], "every code of a password within the bounds, every one-symbol change, every swap, omission, repetition, truncation and extension, one line replaced by any other",
  "The unit tests try one wrong symbol in each line of one code.",
  [LIB + "recovery_codes.rs"], [("line checksums", LIB + "recovery_codes.rs")],
  "lines and the changed symbols symbolic")
p("C05", "Decoding any text as a recovery code gives an error or a text, never a panic",
  "Whatever bytes are given as a recovery code, of any number of lines, with correct checksums or without, decoding ends with a text or with one of the documented errors that fits the input; it never panics or loops. Text that no recovery code encrypts is not returned as a password.",
  ["inputs"], "every text within the bounds",
  "Malformed input is an open set; tests try a handful.",
  [LIB + "recovery_codes.rs", LIB + "crypto.rs"], [("decode", LIB + "recovery_codes.rs")],
  "every symbol symbolic; 1..5 lines")
p("C06", "Formatting a recovery code keeps its symbols and only its symbols",
  "Formatting any text as a recovery code keeps exactly the code symbols it contains, in order and in upper case, and drops everything else; with punctuation switched on, separators stand between groups of four and a line break after 24 symbols, and nowhere else. Formatting is idempotent and commutes with the punctuation the user typed.",
  ["inputs"], "every text within the bounds at every position of a line",
  "Tests format a few fixed codes.", [LIB + "recovery_codes.rs"], [("format_code", LIB + "recovery_codes.rs")],
  "any bytes at the places where lines and groups break")
p("C07", "What is stored reveals nothing about passwords, sites, names and notes",
  "Apart from a random salt, everything written to storage is encrypted with authentication under a key that scrypt derives from the primary password and the salt, or is a keyed hash under a random secret that is itself encrypted. Two stores built by the same operations on different sites, names, passwords, notes and primary passwords differ in no byte other than by the results of those functions (lengths apart).",
  ["inputs", "histories"], "every pair of contents within the bounds, each of a number of histories",
  "Non-interference compares two runs for all inputs; a test sees one.",
  [LIB + "crypto.rs", LIB + "passwords.rs", LIB + "storage_io/file.rs", LIB + "recovery_codes.rs"], [("encryption", LIB + "crypto.rs"), ("storage keys", LIB + "passwords.rs")],
  "dependence on secrets tracked through the real code, ciphers being ideal functions")
p("C08", "Salts, nonces and secrets are fresh random numbers, and no nonce is used twice",
  "Every salt, nonce and storage secret consists of cryptographic random bytes over its whole length, drawn for that one use. Over any history of operations no two encryptions under one key share a nonce.",
  ["histories", "inputs"], "every history of operations within the bounds, every output of the random generator",
  "Tests replace the random generator by a fixed one, so reuse and truncation are invisible to them.",
  [LIB + "crypto.rs", LIB + "passwords.rs", LIB + "recovery_codes.rs"], [("get_rng users", LIB + "crypto.rs")],
  "random words symbolic; histories of bounded length")
p("C09", "Nothing is readable or changeable while locked; only the right password unlocks",
  "While passwords are locked every operation that reads or changes entries is refused with an error and changes nothing in storage. Unlocking succeeds exactly with the primary password set last, writes nothing, and failing to unlock leaves the lock as it was; a new primary password takes everything stored under the old one away, and the old one unlocks nothing any more.",
  ["inputs", "histories"], "every pair of primary passwords within the bounds, every state of the lock, every operation",
  "Tests try one wrong password and some of the operations.",
  [LIB + "passwords.rs"], [("lock/unlock/reset", LIB + "passwords.rs")],
  "passwords symbolic, operations enumerated")
p("C10", "The store is a map: operations affect exactly the entry they name",
  "After any history of operations, the entries visible are those of a simple map from site, name and revision to passwords: each operation adds, replaces, or removes exactly the entry it names, succeeds or fails as that map says, and no other entry, note or alias changes. Sites are the same with and without one www. in front; names and sites are otherwise told apart by every character; revisions \"1\" and none are the same.",
  ["histories", "inputs"], "every history within the bounds with arbitrary arguments, from several states",
  "Tests run a few fixed sequences; interference between entries shows only for certain combinations of operations and arguments.",
  [LIB + "passwords.rs"], [("set/get/remove/list", LIB + "passwords.rs")],
  "compared with a reference model after each history; arguments symbolic")
p("C11", "An alias gives access to exactly the entries of the site it stands for",
  "A site made an alias shows, adds, changes and removes the very entries of the site it stands for, also through aliases made earlier for it, until the alias is removed. A site with passwords can't become an alias, a site can't be an alias of itself, and removing an alias changes no password.",
  ["histories"], "every history of alias operations and others within the bounds, with arbitrary arguments",
  "Tests set one alias at a time; chains made by several operations in some order are not tried.",
  [LIB + "passwords.rs"], [("set_alias/remove_alias/resolution", LIB + "passwords.rs")],
  "compared with a reference model; four sites")
p("C12", "Listing shows every matching entry and site once, and no others",
  "Listing the entries of a site by a pattern shows each of its entries whose name matches exactly once, with type, revision, length and characters, and no others; listing sites does the same for sites and aliases. In patterns * stands for any text and ? for one character.",
  ["inputs"], "every pattern and every two names within the bounds",
  "Tests use a few patterns.", [LIB + "passwords.rs"], [("list/list_sites", LIB + "passwords.rs")],
  "pattern and names symbolic; one defect of the wildmatch crate is a known finding")
p("C13", "Notes stay with their entry through every operation on it or others",
  "The notes of an entry are what was last set for it since it was added: operations on other entries leave them alone, removing or replacing the entry removes them. Any text comes back unchanged, the empty one meaning none.",
  ["histories", "inputs"], "every operation before and after setting notes, every text within the bounds",
  "Tests read notes back right after setting them.", [LIB + "passwords.rs", LIB + "storage_types/password.rs"], [("set_notes/get_notes", LIB + "passwords.rs")],
  "compared with a reference model")
p("C14", "Whatever was saved is there for the next user of the storage, unchanged",
  "After every successful operation the storage file holds the state the operation led to: whoever opens the file next, with the same primary password, sees the same entries, passwords, notes and aliases. Any strings, with quotes, control characters and any Unicode, come back as they were.",
  ["histories", "inputs"], "every operation from every state within the bounds, any text in any field",
  "Tests mostly keep one instance, and use plain names.",
  [LIB + "storage_io/file.rs", LIB + "json/mod.rs", LIB + "passwords.rs"], [("flush after each change", LIB + "passwords.rs"), ("serialization", LIB + "json/mod.rs")],
  "a second instance opens the storage and is compared with the reference model")
p("C15", "Files of the documented format are read whoever wrote them, and written the same",
  "A storage file with the documented header and entries is read correctly whatever the order of fields, the spacing and, in password entries, further unknown fields; other applications and formats are refused as such. What is written has exactly the documented field names and types, keyed as documented, so that the browser extension and other versions can read it.",
  ["inputs"], "every order, spacing and addition within the bounds, every kind of entry with arbitrary contents",
  "Tests read what the same version wrote.", [LIB + "storage_io/file.rs", LIB + "json/mod.rs", LIB + "storage_types/password.rs"], [("from/to JSON", LIB + "storage_types/password.rs"), ("file format", LIB + "storage_io/file.rs")],
  "contents symbolic; forms enumerated")
p("C16", "No failure or crash while saving loses what was stored before",
  "If the storage file can't be saved, or the process ends at any moment while saving, the file holds either everything from before the operation or everything from after it, and can be opened with the primary password. A failure to save is reported as an error, and the next successful operation saves the whole state.",
  ["fault_sequences", "crash_points", "histories"], "every file-system call of every operation failing, being cut short, or being the last before a crash; two failures in a row",
  "Tests never fail a write.", [LIB + "storage_io/file.rs", LIB + "passwords.rs"], [("flush", LIB + "storage_io/file.rs")],
  "faults are symbolic choices at each call of the modelled file system")
p("C17", "Damaged storage contents give errors, never panics, wrong data or data loss",
  "Whatever the values in a storage file are - cut, changed, no ciphertexts, or encrypted with the right key but not what they should be - every operation ends with its result or an error: none panics, none invents data, and undamaged entries remain readable. Files that are no storage files are refused with an error and left as they are.",
  ["inputs"], "every value within the bounds, every cut and every changed character",
  "Tests try a few kinds of broken data.", [LIB + "passwords.rs", LIB + "crypto.rs", LIB + "storage_io/file.rs", LIB + "json/mod.rs", LIB + "storage_types/password.rs"], [("decryption and parsing", LIB + "crypto.rs")],
  "damaged characters symbolic, at every place")

exec(open(os.path.join(V, "meta_cli.py")).read()) if os.path.exists(os.path.join(V, "meta_cli.py")) else None

NOT_APPLICABLE = globals().get("NOT_APPLICABLE", [])

if __name__ == "__main__":
    with open(V + "/properties.jsonl", "w") as f:
        for x in P:
            for fl in x["files"]:
                assert os.path.exists("/repo/" + fl), fl
            f.write(json.dumps({
                "id": x["id"], "title": x["title"], "statement": x["statement"],
                "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["tests"],
                "anchors": {"files": sorted(set(x["files"])), "mechanism": x["mech"]}}) + "\n")
    na = {i for i, _ in [(n["property"], 0) for n in NOT_APPLICABLE]}
    m = {"version": 1, "setup_cmd": "./check.py --build", "checks": [
        {"property": x["id"], "quick_cmd": "./check.py " + x["id"], "thorough_cmd": "./check.py " + x["id"],
         "technique": "symbolic execution of the real code's LLVM IR, assertions decided by z3",
         "level": "model_checking", "level_note": x["note"]} for x in P if x["id"] not in na],
        "not_applicable": NOT_APPLICABLE}
    with open(V + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
