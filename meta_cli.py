p("C18", "Nothing stored is replaced by the command line without the user's agreement",
  "Adding over an entry and setting a primary password over an existing storage, readable or not, asks first unless -y is given, and leaves the storage as it was unless the answer is yes; another answer, or none, is no. Where nothing is replaced nothing is asked, and what is agreed to is done exactly.",
  ["inputs"], "every answer within the bounds, for each of the commands that replace something",
  "Tests answer y or n.", [CLI + "processor/utils.rs", CLI + "processor/add.rs", CLI + "processor/add_stored.rs", CLI + "processor/set_primary.rs", CLI + "main.rs"], [("asks before replacing", CLI + "processor/utils.rs"), ("commands", CLI + "processor/mod.rs")],
  "answers are symbolic bytes; the storage file is compared")
p("C19", "A primary password is only set if it is long enough and typed twice the same",
  "Setting a primary password succeeds exactly if what was typed has at least 6 characters and was typed the same twice; then that password, and no other, unlocks the storage, which starts empty. Otherwise the command ends with an error, and whatever was stored stays as it was.",
  ["inputs"], "every pair of typed texts within the bounds", "Tests type a few pairs.",
  [CLI + "processor/set_primary.rs", CLI + "processor/utils.rs"], [("set-primary", CLI + "processor/set_primary.rs"), ("prompting", CLI + "processor/utils.rs")], "both texts symbolic")
p("C20", "The options of add decide length and characters of the password as documented",
  "The password added has the length given by --length and contains exactly the kinds of characters not excluded by the switches; a length that is no number from 4 to 24, and excluding everything, is refused with an error and adds nothing. Without options it has 16 characters of all four kinds.",
  ["inputs", "configurations"], "every combination of switches, every text given as length within the bounds", "Tests try a few of the combinations.",
  [CLI + "args.rs", CLI + "processor/add.rs"], [("options", CLI + "args.rs"), ("add", CLI + "processor/add.rs")], "texts given as length symbolic")
p("C21", "list prints exactly the stored passwords asked for, as they are, and cleans up",
  "list prints every site and password matching the patterns once, with the aliases of a site, and no others; with -v length, characters and revision as stored, with -s the very passwords, with -r recovery codes that restore them, with notes if they have any. Sites left without passwords are removed from the storage when the names aren't restricted, and nothing else in it changes.",
  ["inputs", "configurations"], "every combination of options, arbitrary stored values within the bounds", "Tests compare a few outputs.",
  [CLI + "processor/list.rs", "pfp/src/passwords.rs"], [("list", CLI + "processor/list.rs"), ("list", LIB + "passwords.rs")], "stored texts symbolic; output read back by the harness")
p("C22", "Every command does to the storage exactly what it says, or nothing and an error",
  "Given the right primary password, each command changes the storage to exactly the documented state, shows exactly the password (as text or QR code) or notes stored, and exits with 0. If they can't, because of missing or existing entries or aliases, they exit with an error, and the storage file isn't touched.",
  ["inputs", "histories"], "every command, with arbitrary typed and stored texts within the bounds", "Tests use a few fixed passwords.",
  [CLI + "processor/mod.rs"] + [CLI + "processor/%s.rs" % f for f in ("add", "add_stored", "alias", "notes", "remove", "show", "utils")] + ["pfp/src/passwords.rs"], [("commands", CLI + "processor/mod.rs")], "texts symbolic; the storage is compared with a reference model afterwards")
p("C23", "A wrong primary password never gets anything, and is asked for again",
  "Commands that need passwords do nothing before the right primary password is typed: after a wrong one they say so and ask again, and with the right one go on as if it had been typed first. If input ends they end with an error, the storage unchanged and nothing secret shown.",
  ["inputs"], "every typed text within the bounds, for every command", "Tests type one wrong password.",
  [CLI + "processor/utils.rs", CLI + "main.rs", LIB + "passwords.rs"], [("unlock", CLI + "processor/utils.rs")], "the typed text is symbolic")
p("C24", "A typed recovery code gives back the very password, whatever mistakes precede it",
  "A recovery code typed line by line stores exactly the password it was made of; lower case, additional characters and more than one line at once don't matter. A line with a mistake is refused when typed and can be typed again, and an incomplete code stores nothing.",
  ["inputs"], "every mistake in one character at every place, every short line within the bounds", "Tests type the right code and few wrong ones.",
  [CLI + "processor/utils.rs", "pfp/src/recovery_codes.rs"], [("reading codes", CLI + "processor/utils.rs"), ("decoding", LIB + "recovery_codes.rs")],
  "symbolic characters; mistakes that have the right checksum by chance (1 of 256) are left out")
p("C25", "Commands in the shell do what they do alone, and no line makes the shell die",
  "A sequence of commands in the shell leads to the same storage as running them one after another; errors don't end it, and any line that is no command changes nothing. The primary password is asked for once until lock, and no password gets into the history; exit and the end of input end the shell with success.",
  ["histories", "inputs"], "every sequence of commands, and every line within the bounds", "Tests run one or two fixed sessions.",
  [CLI + "processor/shell.rs", CLI + "main.rs"], [("shell", CLI + "processor/shell.rs")], "sequences are symbolic choices")
p("C26", "Whatever the storage and the input, commands end with result or error, no panic",
  "If the storage doesn't exist, isn't initialized, is cut, damaged or another application's file, or input ends early, every command that needs it prints an error and exits with a status other than 0, without touching any file. If single records in a storage are damaged, each command ends with its result, or an error and the file left alone, what isn't damaged remains usable; nothing makes a command panic.",
  ["inputs", "fault_sequences"], "every command with every kind of storage within the bounds", "Tests try a missing file and a file that is no storage.",
  [CLI + "main.rs", CLI + "processor/utils.rs", LIB + "storage_io/file.rs"], [("loading", LIB + "storage_io/file.rs"), ("errors", CLI + "main.rs")], "damage is symbolic")
p("C27", "Passwords, notes and keys are erased from memory before it is given back",
  "No block of heap memory is given back while holding a primary password, a key derived from it, a password or notes, whether typed, read from the storage or generated. When the passwords are locked, or a command has ended, no block still in use holds them either.",
  ["inputs", "histories"], "every operation and command, with arbitrary secrets within the bounds", "Tests look for one fixed password in a few operations.",
  ["pfp/src/passwords.rs", LIB + "crypto.rs", "pfp/src/recovery_codes.rs", LIB + "json/mod.rs", LIB + "storage_types/password.rs", CLI + "processor/utils.rs", CLI + "main.rs"],
  [("secret types", LIB + "lib.rs"), ("serialization", LIB + "json/mod.rs"), ("typed secrets", CLI + "processor/utils.rs")],
  "heap only; secrets with JSON escapes are a known finding in serde_json")
p("C28", "Commands touch only the storage named, or the default, and the shell's history",
  "With -c FILE commands read and write that file (making the folders it needs), without it the storage in the user's configuration folder; the same commands lead to the same content either way. No other file or folder comes, changes or goes, be it that a command fails, and not the other storage either; only the shell writes its history, to the usual file or the one named with -s. Where no storage can be, an error is reported and nothing changes.",
  ["inputs", "histories"], "every command, with each way to name the storage", "Tests use one storage file in one temporary folder and never look at the rest.",
  [CLI + "main.rs", CLI + "args.rs", CLI + "processor/shell.rs", LIB + "storage_io/file.rs"], [("arguments", CLI + "args.rs"), ("default storage", CLI + "main.rs"), ("file", LIB + "storage_io/file.rs")],
  "file system modelled; ways and commands are symbolic choices")
