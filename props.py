"""What is run for each property: harness entries, their parameters and bounds."""

PROPS = {}


def prop(pid, bounds, outside="", **kw):
    PROPS[pid] = dict(bounds=bounds, outside=outside, jobs=[], **kw)


def job(pid, entry, crate="lib", tier="both", time=240, reach=(), cost=1, validate=4, **params):
    PROPS[pid]["jobs"].append(dict(entry=entry, crate=crate, tier=tier, time=time, reach=list(reach), cost=cost, validate=validate, params=params))


def jobs(pid, tier):
    out = []
    for j in PROPS[pid]["jobs"]:
        if j["tier"] in ("both", tier):
            j = dict(j)
            if tier == "thorough":
                j["time"] = max(j["time"], 780)
                j["validate"] *= 4
            else:
                j["time"] = min(max(j["time"], 500), 700)
            out.append(j)
    return out



SETUPS = "from 8 prepared states (empty, one entry, several revisions with notes, aliases with and without passwords, equal names on two sites, an emptied site, two aliases of one site)"
CRYPTO = "AES-256-GCM, HMAC-SHA256, scrypt and the ChaCha generator are ideal functions (models/): what they compute is not checked"
LIB_OUT = CRYPTO + "; longer texts and other site or name lengths than stated"

# ---------------------------------------------------------------- generation
prop("C01", {"quick": "every non-empty character set with lengths 4, 8, 12, 16 and every output of the key derivation (all bytes symbolic); the set of all four also with lengths 1..3 and 24",
             "thorough": "every non-empty character set with lengths 1..16, every character set with lengths 20 and 24 for the full set, every output of the key derivation"},
     CRYPTO + "; lengths above 24")
for n in (4, 8):
    job("C01", "h_password", n=n, charset=0, reach=["password compared"], cost=10 * n)
for n in (1, 2, 3):
    job("C01", "h_password", n=n, charset=0, reach=["password compared"])
for n, t in ((12, "both"), (16, "both"), (20, "thorough"), (24, "thorough")):
    job("C01", "h_password", n=n, charset=15, tier=t, reach=["password compared"], cost=40 + 5 * n)
for cs in (1, 2, 4, 8, 3, 7, 11, 13, 14):
    job("C01", "h_password", n=12, charset=cs, reach=["password compared"], cost=5)
for n in (5, 6, 7, 9, 10, 11):
    job("C01", "h_password", n=n, charset=0, tier="thorough", reach=["password compared"], cost=10 * n)
for cs in range(1, 15):
    job("C01", "h_password", n=16, charset=cs, tier="thorough", reach=["password compared"], cost=100)

prop("C02", {"quick": "primary passwords of 0, 4 and 6 characters (ASCII and two-byte), sites and names of up to 3 and 2 letters, revisions of 0..2 characters, lengths 4..24",
             "thorough": "the same, and longer primary passwords"}, LIB_OUT)
job("C02", "h_derive", np=4, ns=3, nn=2, nr=1, reach=["derived", "with revision"], cost=20)
job("C02", "h_derive", np=4, ns=3, nn=2, nr=0, reach=["derived"], cost=20)
job("C02", "h_derive", np=4, ns=2, nn=2, nr=2, reach=["derived", "with revision"], cost=20)
job("C02", "h_derive", np=6, mode=2, ns=3, nn=0, nr=1, reach=["derived"], cost=20)
job("C02", "h_derive", np=0, ns=3, nn=1, nr=1, short=0, reach=["derived"], cost=30)
for f in ("lp", "ls", "ln", "lr"):
    job("C02", "h_derive", np=2, ns=1, nn=1, nr=1, reach=["derived"], cost=12, **{f: 70 if f == "lr" else 300})
for a in (1, 2, 3):
    job("C02", "h_derive", np=1, ns=2, nn=2, nr=2, any=a, reach=["derived"], cost=20)
job("C02", "h_derive", np=8, ns=3, nn=3, nr=2, tier="thorough", reach=["derived"], cost=30)
job("C02", "h_derive", np=12, ns=3, nn=3, nr=3, tier="thorough", reach=["derived"], cost=30)

# ---------------------------------------------------------------- recovery codes
prop("C03", {"quick": "passwords of 0..3, 8, 9, 11, 12, 24 and 25 ASCII bytes, of 6 bytes of other UTF-8, of 4 with NUL bytes, and of 3570 and 7200 bytes with two arbitrary ones; every salt, nonce and ciphertext", "thorough": "passwords of 0..40 bytes"}, CRYPTO)
job("C03", "h_recovery_roundtrip", n=4, mode=9, reach=["decoded"], cost=10)
for n in (0, 1, 2, 3, 8, 9, 11, 12, 24, 25):
    job("C03", "h_recovery_roundtrip", n=n, mode=0, reach=["decoded"], cost=5 + n)
job("C03", "h_recovery_roundtrip", n=6, mode=2, reach=["decoded"], cost=20)
for n in (4, 5, 6, 7, 10, 13, 16, 20, 30, 40):
    job("C03", "h_recovery_roundtrip", tier="thorough", n=n, mode=0, reach=["decoded"], cost=5 + n)

prop("C04", {"quick": "codes of passwords of 3 and 5 characters: every swap, omission, repetition, cut, extension (1..30 arbitrary symbols), every other symbol at every place, and a line of a given code replaced by any other text",
             "thorough": "the same with every line of any code replaced, and longer passwords"}, CRYPTO + "; two or more changed lines at once")
for k in (1, 2, 3, 4, 5):
    job("C04", "h_recovery_damage", n=5, kind=k, reach=["rejected"], cost=5)
for k in (1, 2, 3):
    # codes of many lines
    job("C04", "h_recovery_damage", n=3, long=200, kind=k, reach=["rejected"], cost=20 if k == 1 else 5)
job("C04", "h_recovery_damage", n=3, long=80, kind=4, reach=["rejected"], cost=20)
for l in range(4):
    for c in range(4):
        job("C04", "h_recovery_damage", n=3, kind=7, line=l, **{"class": c}, reach=["rejected"], cost=10)
for l in range(1, 4):
    # any line instead of that of a given code
    job("C04", "h_recovery_damage", n=3, kind=6, line=l, given=1, reach=["rejected", "accepted"], cost=5)
for l in range(4):
    for c in range(4):
        job("C04", "h_recovery_damage", n=3, kind=6, line=l, **{"class": c}, tier="thorough", reach=["rejected", "accepted"], cost=200)
for k in (1, 2, 3, 4, 5):
    job("C04", "h_recovery_damage", n=20, kind=k, tier="thorough", reach=["rejected"], cost=50)

prop("C05", {"quick": "any text of up to 3 symbols; codes of 1..4 lines with arbitrary contents and correct checksums, with and without surplus symbols", "thorough": "the same with more classes of contents"}, CRYPTO)
job("C05", "h_decode_any", lines=0, extra=3)
job("C05", "h_decode_any", lines=0, extra=1)
job("C05", "h_decode_any", lines=1)
job("C05", "h_decode_any", lines=1, extra=2)
job("C05", "h_decode_any", lines=2, extra=3, cost=5)
job("C05", "h_decode_any", lines=3, cost=30)
job("C05", "h_decode_any", lines=4, good=1, reach=["decoded"], cost=11)
job("C05", "h_decode_any", lines=4, good=1, extra=5, cost=10)
job("C05", "h_decode_any", lines=4, tier="thorough", cost=100)
job("C05", "h_decode_any", lines=5, good=1, tier="thorough", reach=["decoded"], cost=100)

prop("C06", {"quick": "any 2 or 3 characters, after 0, 23 and 47 symbols", "thorough": "any 4 characters"}, "other prefix lengths")
for pre in (0, 23, 47):
    for l in (2, 3):
        job("C06", "h_format", prefix=pre, len=l, reach=["kept"] if pre else ["kept", "dropped"], cost=l)
    job("C06", "h_format", prefix=pre, len=4, tier="thorough", reach=["kept"], cost=50)
for pre in (1, 22, 24, 46, 71, 95):
    job("C06", "h_format", prefix=pre, len=2, reach=["kept"], cost=1)

# ---------------------------------------------------------------- secrecy
prop("C07", {"quick": "two stores that differ in every site, name, revision, password, note and in the primary password, built by the same 8 sequences of operations", "thorough": "the same"}, CRYPTO)
for k in range(8):
    job("C07", "h_confidential", setup=k, sites=4 if k == 7 else 3, reach=["compared"], cost=10)
prop("C08", {"quick": "histories of 2 operations " + SETUPS, "thorough": "histories of 3 operations"}, CRYPTO)
job("C08", "h_random", reach=["compared"])
for k in range(8):
    job("C08", "h_nonces", setup=k, ops=2, sites=4 if k == 7 else 3, reach=["compared"], cost=10)
    job("C08", "h_nonces", setup=k, ops=3, sites=4 if k == 7 else 3, tier="thorough", reach=["compared"], cost=100)

# ---------------------------------------------------------------- locking
prop("C09", {"quick": "primary passwords and attempts of up to 4 characters (any ASCII), every state of the lock, every operation", "thorough": "up to 8 characters"}, LIB_OUT)
for a, b in ((3, 3), (3, 2), (0, 1), (4, 4), (1, 0)):
    job("C09", "h_lock", n1=a, n2=b, reach=["wrong"] if a != b else ["right", "wrong"])
for n in (70, 300):
    job("C09", "h_lock", n1=3, n2=3, long=n, reach=["right", "wrong"])
    job("C09", "h_lock", n1=3, n2=2, long=n, reach=["wrong"])
job("C09", "h_lock", n1=3, n2=3, empty=1, reach=["refused"])
job("C09", "h_lock", n1=3, n2=3, locked=1, reach=["refused"])
job("C09", "h_reset", n1=2, n2=2, n3=2, reach=["right", "wrong", "not saved"])
job("C09", "h_reset", n1=3, n2=1, n3=3, reach=["wrong", "not saved"])
for a, b in ((8, 8), (6, 6), (6, 7)):
    job("C09", "h_lock", n1=a, n2=b, tier="thorough", reach=["wrong"], cost=5)
job("C09", "h_reset", n1=6, n2=6, n3=6, tier="thorough", reach=["right", "wrong", "not saved"], cost=5)


# ---------------------------------------------------------------- the store
def histories(pid, setups, **kw):
    for k in setups:
        p = dict(kw)
        if k == 7:
            p["sites"] = 4
        job(pid, "h_history", setup=k, ops=1, reach=["compared"], cost=20, **p)


prop("C10", {"quick": "any operation " + SETUPS + ", and any two operations on an empty store, with arbitrary sites, names, stored passwords and notes, and with revisions that look alike", "thorough": "any two operations from every such state"}, LIB_OUT)
histories("C10", range(8))
histories("C10", (2, 3), long=300)
histories("C10", (1, 3), www=2)
histories("C10", (2, 5), close=1)
for k in (1, 2, 3, 4, 5):
    histories("C10", (2,), revs=k)
    job("C10", "h_history", setup=3, ops=1, revs=k, tier="thorough", reach=["compared"], cost=20)
for op in (0, 1):
    job("C10", "h_history", setup=0, ops=2, op=op, reach=["compared"], cost=60)
for k in range(8):
    for op in range(8):
        job("C10", "h_history", setup=k, ops=2, op=op, tier="thorough", sites=4 if k == 7 else 3, reach=["compared"], cost=100, time=700)

prop("C11", {"quick": "any operation " + SETUPS + ", with four sites", "thorough": "any two operations, the first one on aliases"}, LIB_OUT)
for k in (3, 4, 6, 7):
    job("C11", "h_history", setup=k, ops=1, sites=4, reach=["compared"], cost=20)
for k in (0, 1, 5):
    job("C11", "h_history", setup=k, ops=1, reach=["compared"], cost=15)
job("C11", "h_history", setup=0, ops=2, op=4, reach=["compared"], cost=80)
for k in (0, 3, 4, 6, 7):
    for op in (4, 5, 6):
        job("C11", "h_history", setup=k, ops=2, op=op, tier="thorough", sites=4, reach=["compared"], cost=150, time=760)

prop("C12", {"quick": "patterns of up to 3 characters (any letters, * and ?) against two names of up to 3 letters, and the same between www., blanks, brackets, backslashes, a two-byte character, capitals", "thorough": "patterns of up to 4 characters, names of up to 4"}, LIB_OUT + "; wildcards in site names")
for e in ("h_list", "h_list_sites"):
    for pat, n1, n2 in ((0, 1, 2), (1, 1, 2), (2, 1, 2), (2, 3, 1), (3, 2, 3), (3, 1, 1)):
        job("C12", e, pat=pat, n1=n1, n2=n2, cost=pat)
    job("C12", e, pat=4, n1=3, n2=2, tier="thorough", cost=40)
    job("C12", e, pat=2, n1=1, n2=2, long=70, cost=2)
    job("C12", e, pat=1, n1=1, n2=1, long=300, cost=2)
    job("C12", e, pat=4, n1=4, n2=3, tier="thorough", cost=60)
    for k in (1, 2, 3, 4, 5):
        job("C12", e, pat=2, n1=1, n2=2, around=k, cost=2)
        job("C12", e, pat=3, n1=2, n2=2, around=k, tier="thorough", cost=10)

prop("C13", {"quick": "setting notes " + SETUPS + ", and before or after any other operation", "thorough": "two operations around it"}, LIB_OUT)
histories("C13", (2, 3, 5, 6), op=2)
histories("C13", (2,), op=2, long=300)
job("C13", "h_text", n=2, mode=0, field=4, long=1000, reach=["compared"])
job("C13", "h_history", setup=2, ops=2, op=2, reach=["compared"], cost=80)
job("C13", "h_history", setup=1, ops=2, op=2, reach=["compared"], cost=80)
job("C13", "h_text", n=2, mode=0, field=4, reach=["compared"])
job("C13", "h_text", n=1, mode=1, field=4, reach=["compared"])
job("C13", "h_text", n=0, mode=0, field=4, reach=["compared"])
for k in (3, 5):
    job("C13", "h_history", setup=k, ops=2, op=2, tier="thorough", reach=["compared"], cost=100, time=700)

# ---------------------------------------------------------------- persistence and the file
prop("C14", {"quick": "any operation " + SETUPS + ", and all operations in turn on a real file, read again afterwards; any strings of up to 3 characters as values", "thorough": "the same with two operations"}, LIB_OUT)
histories("C14", range(8), reload=1)
histories("C14", (2, 3), reload=1, long=300)
job("C14", "h_values", n=2, mode=0, long=1000, reach=["compared"], cost=2)
for f in range(5):
    job("C14", "h_text", n=1, mode=0, field=f, long=1000, reach=["compared"], cost=5)
job("C14", "h_file", reach=["reloaded"], cost=5)
job("C14", "h_layout", reach=["compared"])
for n in (0, 1, 2, 3):
    job("C14", "h_values", n=n, mode=0, reach=["compared"], cost=n)
job("C14", "h_values", n=2, mode=1, reach=["compared"])
for f in range(5):
    job("C14", "h_text", n=2, mode=0, field=f, reach=["compared"])
    job("C14", "h_text", n=2, mode=1, field=f, reach=["compared"])
for k in range(8):
    for op in (1, 4):
        job("C14", "h_history", setup=k, ops=2, op=op, reload=1, tier="thorough", reach=["compared"], cost=100, time=700)

prop("C15", {"quick": "stores and files as other programs write them (order, spacing, missing and extra fields, every kind of entry, arbitrary contents); entries written by this one", "thorough": "the same"}, LIB_OUT)
job("C15", "h_foreign", reach=["read"], cost=40)
job("C15", "h_written", reach=["compared"], cost=5)
job("C15", "h_layout", reach=["compared"])
for a, f in ((3, 1), (3, 2), (2, 1), (4, 1), (0, 1)):
    job("C15", "h_header", an=a, fn=f, reach=["accepted", "refused"] if (a, f) == (3, 1) else ["refused"])

prop("C16", {"quick": "any one file-system call failing, cut short or being the last one before a crash, in every operation; two failures in a row", "thorough": "three failures in a row"}, "what the operating system does to data not yet synced (a completed rename is taken to replace a file by what was written and synced); " + CRYPTO)
job("C16", "h_faults", faults=1, kinds=7, reach=["done", "failed", "crashed", "second attempt", "after a failed reset"], cost=5)
job("C16", "h_faults", faults=2, kinds=3, reach=["done", "failed", "second attempt"], cost=5)
job("C16", "h_faults", faults=2, kinds=7, reach=["done", "failed", "crashed", "second attempt"], cost=5)
job("C16", "h_faults", faults=3, kinds=7, tier="thorough", reach=["done", "failed", "crashed", "second attempt"], cost=5)
job("C16", "h_first", faults=1, kinds=7, reach=["saved", "not saved"])
job("C16", "h_first", faults=2, kinds=7, reach=["saved", "not saved"])
job("C16", "h_file", reach=["reloaded"], cost=5)
job("C16", "h_unsaved", crate="cli", faults=2, reach=["done", "failed"], cost=16)
job("C16", "h_unsaved", crate="cli", faults=3, n=3, tier="thorough", reach=["done", "failed"], cost=60)

prop("C17", {"quick": "stored values that are any text of up to 4 characters, ciphertexts with parts of any size, cut or changed at any place, plaintexts with any character changed, cut, or any text of up to 3 bytes; files cut or with any character changed", "thorough": "4 bytes"}, CRYPTO)
for n in (0, 1, 2, 3, 4):
    job("C17", "h_garbage", n=n, mode=0, cost=3)
job("C17", "h_garbage", n=2, mode=1, cost=3)
job("C03", "h_long", n=3570, reach=["compared"], cost=2)
job("C03", "h_long", n=7200, reach=["compared"], cost=5)
for n in (0, 1, 2):
    job("C17", "h_keys", n=n, reach=["unlocked"], cost=3)
job("C17", "h_keys", n=2, mode=1, reach=["unlocked"], cost=3)
job("C17", "h_tampered", reach=["unlocked", "not unlocked"], cost=30)
for w in (0, 1, 2, 3):
    job("C17", "h_misfit", which=w, reach=["unlocked"], cost=40)
for n in (0, 1, 2):
    job("C17", "h_misfit", which=4, n=n, reach=["unlocked"], cost=2)
job("C17", "h_misfit", which=4, n=3, digits=0, reach=["unlocked"], cost=6)
job("C17", "h_misfit", which=4, n=4, digits=0, tier="thorough", reach=["unlocked"], cost=90)
for n in (0, 1, 2, 3):
    job("C17", "h_broken", kind=0, n=n, reach=["loaded"])
for k in (1, 2, 3):
    job("C17", "h_broken", kind=k, reach=["loaded"])

job("C17", "h_impossible", reach=["password", "error"], cost=5)

# ---------------------------------------------------------------- the command line
CLI_OUT = "what is typed and shown goes through a modelled terminal (rpassword and the console are stand-ins at the system-call level); " + CRYPTO
prop("C18", {"quick": "adding over an entry and setting a primary password over a storage that can or can't be read, with every answer of up to 3 bytes, and none at all; names of one letter", "thorough": "longer typed texts"}, CLI_OUT)
for n in (0, 1, 2, 3):
    for what in (0, 1, 2):
        job("C18", "h_confirm", crate="cli", n=n, what=what, reach=["refused", "agreed"] if n else ["refused"], cost=n * n)
for what in (0, 1):
    job("C18", "h_confirm", crate="cli", n=0, what=what, names=1, reach=["refused"], cost=2)
job("C18", "h_confirm", crate="cli", n=1, what=0, names=1, reach=["refused", "agreed"], cost=5)
job("C18", "h_unasked", crate="cli", reach=["done"], cost=2)
for n in (0, 1, 2):
    job("C18", "h_overwrite", crate="cli", n=n, reach=["refused", "agreed"] if n else ["refused"], cost=5 * n)

prop("C19", {"quick": "every two typed passwords of the stated lengths (0 to 7 characters)", "thorough": "up to 9 characters"}, CLI_OUT)
for a, b, r in ((6, 6, 3), (7, 6, 1), (5, 5, 1), (6, 7, 1), (0, 0, 1), (3, 3, 1), (5, 6, 1)):
    job("C19", "h_primary", crate="cli", n1=a, n2=b, reach=["refused", "set"] if r == 3 else ["refused"], cost=a + b)
for a, w in ((1, 1), (3, 1), (0, 2), (1, 2), (2, 2), (4, 1)):
    job("C19", "h_primary", crate="cli", n1=a, n2=a, wide=w, reach=["refused"] if 2 * w + a < 6 else ["refused", "set"] if a else ["set"], cost=2 * a)
for a, b in ((2, 2), (2, 1)):
    job("C19", "h_primary", crate="cli", n1=a, n2=b, long=300, reach=["refused", "set"], cost=5)
for a, b in ((7, 7), (8, 8), (9, 9)):
    job("C19", "h_primary", crate="cli", n1=a, n2=b, tier="thorough", reach=["refused", "set"], cost=a + b)

prop("C20", {"quick": "every combination of the four switches, and lengths written with up to 3 characters", "thorough": "the same with every combination of switches and any one character"}, CLI_OUT)
job("C20", "h_options", crate="cli", n=0, reach=["added", "refused"])
job("C20", "h_options", crate="cli", n=1, digits=1, reach=["added"], cost=17)
job("C20", "h_options", crate="cli", n=2, digits=3, flags=0, long=1, cost=9)
job("C20", "h_options", crate="cli", n=2, digits=1, flags=0, cost=40)
job("C20", "h_options", crate="cli", n=2, digits=2, flags=0, cost=46)
job("C20", "h_options", crate="cli", n=3, digits=7, flags=2, cost=44)
job("C20", "h_options", crate="cli", n=1, tier="thorough", cost=70)
job("C20", "h_options", crate="cli", n=2, digits=3, tier="thorough", cost=90)

prop("C21", {"quick": "every combination of the options of list, with patterns and a storage holding generated and stored passwords, notes, aliases, an alias to an alias and sites without passwords; symbolic values of 2 characters", "thorough": "values of 3 characters"}, CLI_OUT)
job("C21", "h_list_cmd", crate="cli", n=2, reach=["cleaned", "code", "listed"], cost=18)
job("C21", "h_list_cmd", crate="cli", n=1, reach=["cleaned", "code", "listed"], cost=15)
job("C21", "h_list_cmd", crate="cli", n=3, tier="thorough", reach=["cleaned", "code", "listed"], cost=30)
for g in range(6):
    job("C21", "h_listed", crate="cli", group=g, reach=["cleaned", "listed"], cost=50)
    job("C21", "h_listed", crate="cli", group=g, pattern=1, tier="quick" if g == 0 else "thorough", reach=["cleaned", "listed"], cost=100)

prop("C22", {"quick": "each of the nine commands with typed and stored texts of 2 characters (0 to 2 for stored passwords and notes)", "thorough": "3 characters"}, CLI_OUT)
for op in range(9):
    job("C22", "h_command", crate="cli", op=op, reach=["done"] if op in (4, 5) else ["done", "refused"], cost=3)
    job("C22", "h_command", crate="cli", op=op, n=3, tier="thorough", reach=["done"] if op in (4, 5) else ["done", "refused"], cost=3)
for op in (3, 4):
    for n in (0, 1, 2):
        job("C22", "h_command", crate="cli", op=op, fixed=1, n=n, reach=["done"], cost=3)

for what in range(4):
    for n, long, mode in ((0, 0, 0), (2, 0, 0), (2, 0, 2), (1, 600, 0)):
        job("C22", "h_shown", crate="cli", what=what, n=n, long=long, mode=mode, reach=["shown"] if n or what < 2 else [], cost=10 if n == 2 else 3)
prop("C23", {"quick": "typed texts of 0, 4 and 7 characters, right or wrong, before each command", "thorough": "8 characters"}, CLI_OUT)
job("C23", "h_again", crate="cli", n=7, reach=["right", "wrong"], cost=13)
job("C23", "h_again", crate="cli", n=4, reach=["wrong"], cost=5)
job("C23", "h_again", crate="cli", n=0, reach=["wrong"], cost=5)
job("C23", "h_attempts", crate="cli", attempts=4, reach=["done"], cost=20)
job("C23", "h_attempts", crate="cli", attempts=30, mixed=0, reach=["done"], cost=2)
job("C23", "h_attempts", crate="cli", attempts=12, mixed=0, shell=1, reach=["done"], cost=2)
job("C23", "h_attempts", crate="cli", attempts=6, tier="thorough", reach=["done"], cost=150)
job("C23", "h_again", crate="cli", n=8, tier="thorough", reach=["right", "wrong"], cost=15)

prop("C24", {"quick": "a code with any one character typed wrong in the first attempt, cut, with further lines, in either case, and any lines of 3 characters", "thorough": "the same with longer texts"}, CLI_OUT)
for k, r in ((0, ["stored"]), (1, ["stored"]), (2, ["refused"]), (3, ["stored", "refused"]), (4, ["stored"]), (5, ["refused"])):
    job("C24", "h_code", crate="cli", kind=k, reach=r, cost=20 if k == 1 else 3)
for k in (6, 7, 8):
    job("C24", "h_code", crate="cli", kind=k, reach=["stored"], cost=20 if k == 7 else 5)

prop("C25", {"quick": "every command of 20 forms from the start, every two commands beginning with seven of them, lines with any one character at three places, and 28 odd words quoted in four ways at each place of add", "thorough": "every two commands of 20 forms, lines with any two characters"}, CLI_OUT + "; lines longer than stated")
job("C25", "h_shell", crate="cli", steps=1, reach=["done"], cost=11)
for k in range(20):
    job("C25", "h_shell", crate="cli", steps=2, first=k, tier="both" if k in (0, 2, 5, 8, 13, 17, 18) else "thorough", reach=["done"], cost=50)
for g in range(4):
    job("C25", "h_shell_words", crate="cli", group=g, reach=["done"], cost=60)
for k in (0, 1, 2, 3):
    job("C25", "h_shell_line", crate="cli", kind=k, n=1, reach=["done"], cost=8)
    job("C25", "h_shell_line", crate="cli", kind=k, n=2, tier="thorough", reach=["done"], cost=90)

prop("C26", {"quick": "every command with no storage, other files, a file cut at chosen places, damaged characters, a missing directory and no input", "thorough": "cut at every fifth place"}, CLI_OUT)
job("C26", "h_nothing", crate="cli", kind=0, reach=["refused"], cost=3)
job("C26", "h_nothing", crate="cli", kind=1, n=2, reach=["refused"], cost=5)
job("C26", "h_nothing", crate="cli", kind=2, cmd=0, step=5, reach=["refused"], cost=18)
job("C26", "h_nothing", crate="cli", kind=2, step=150, reach=["refused"], cost=4)
for k in (3, 4, 5):
    job("C26", "h_nothing", crate="cli", kind=k, reach=["refused"], cost=5)
for c in range(1, 9):
    job("C26", "h_nothing", crate="cli", kind=2, cmd=c, step=5, tier="thorough", reach=["refused"], cost=18)

job("C26", "h_damaged", crate="cli", kind=0, reach=["done", "refused"], cost=45)
for n in (0, 1, 3):
    job("C26", "h_damaged", crate="cli", kind=1, n=n, reach=["done", "refused"], cost=9)
job("C26", "h_damaged", crate="cli", kind=2, step=9, reach=["done", "refused"], cost=60)
job("C26", "h_damaged", crate="cli", kind=4, step=9, offset=3, reach=["done", "refused"], cost=50)
for n in (0, 1, 2):
    job("C26", "h_damaged", crate="cli", kind=3, n=n, reach=["done", "refused"], cost=20 * n)
job("C26", "h_damaged", crate="cli", kind=5, reach=["done", "refused"], cost=30)
for w in range(3):
    for o in range(4):
        for k in (2, 4):
            job("C26", "h_damaged", crate="cli", kind=k, step=4, offset=o, which=w, tier="thorough", reach=["done"], cost=60)
for pid in ("C26", "C23"):
    job(pid, "h_ends", crate="cli", kind=0, reach=["refused"], cost=2)
    for n in (1, 2, 4):
        job(pid, "h_ends", crate="cli", kind=1, n=n, reach=["refused"], cost=2 * n)
for n in (1, 2):
    job("C26", "h_ends", crate="cli", kind=2, n=n, reach=["refused", "stored"], cost=8 * n)
job("C26", "h_ends", crate="cli", kind=2, n=3, tier="thorough", reach=["refused", "stored"], cost=100)
for c in (2, 20):
    job("C22", "h_qr", crate="cli", columns=c, long=0 if c == 20 else 100, reach=["shown"], cost=20)
job("C22", "h_qr", crate="cli", long=2954, reach=["too long"])

prop("C27", {"quick": "every operation of the library and every command, with secrets of 3 symbolic characters (between fixed ones) and with typed and stored texts of above 1024 bytes", "thorough": "the same with 1 and 5 characters"},
     "copies on the stack or in registers (the project's own test looks at the heap too); what the operating system, terminal and clipboard keep; modelled cryptography")
for op in range(9):
    job("C27", "h_forget", op=op, reach=["done"])
    for n in (1, 5):
        job("C27", "h_forget", op=op, n=n, tier="thorough", reach=["done"])
for op in range(14):
    job("C27", "h_residue", crate="cli", op=op, reach=["done"], cost=2)
    job("C27", "h_residue", crate="cli", op=op, quote=1, reach=["done"], cost=2)
    for n in (1, 5):
        job("C27", "h_residue", crate="cli", op=op, n=n, tier="thorough", reach=["done"], cost=2)
    for w in (0, 1, 2):
        job("C27", "h_residue", crate="cli", op=op, long=1100, where=w, reach=["done"], cost=2)
prop("C28", {"quick": "with the default storage and with -c for an absolute path, a path in the current folder, in a folder that isn't there yet: ten commands, failed ones before, 2 symbolic characters in what is typed", "thorough": "the same with 4 characters"},
     "files named by -c that are links; XDG_CONFIG_HOME and other systems' folders; temporary files that are gone when the command ends")
job("C28", "h_files", crate="cli", n=2, reach=["done"])
job("C28", "h_files", crate="cli", n=4, tier="thorough", reach=["done"])
job("C28", "h_places", crate="cli", reach=["refused"])
