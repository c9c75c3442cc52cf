"""What each check is and what it assures; copied into MANIFEST.json."""
_SHAPE = ("The specification's efficient definition is checked exhaustively against the declarative one in small "
          "universes (TLC, MCShape), then every recorded answer of the real code is judged by TLC (ShapeTrace). Hands "
          "are enumerated for one suit and sampled beyond; assurance is up to those hands.")
TECH = {p: "TLA+ spec Shape checked exhaustively by TLC; recorded answers of the code validated by TLC"
        for p in ("C01", "C02", "C03", "C04", "C05", "C06")}
NOTE = {p: _SHAPE for p in ("C01", "C02", "C03", "C04", "C05", "C06")}

_LAWS = ("The specification module is checked by TLC for the laws it must satisfy (small universes, exhaustively), then "
         "every recorded answer of the real code is judged by TLC against it. ")


def _add(props, tech, note):
    for p in props.split():
        TECH[p] = tech
        NOTE[p] = note


_add("C07 C08 C09 C30", "TLA+ spec Tiles (laws checked by TLC); recorded answers of the code validated by TLC",
     _LAWS + "The tile-level functions are enumerated over their whole domain; texts, tile sets and category "
     "compositions are enumerated up to a size and sampled beyond.")
_add("C10", "TLA+ spec Meld: encoder and decoder checked inverse by TLC over all legal codes, which are replayed in the code",
     "Every legal call code of every seat is generated by the specification and replayed into meld_from; exhaustive.")
_add("C11", "TLA+ spec Rules over all rule codes; TLC validates the answers of the code",
     "All rule codes up to 2^12 and sampled larger ones; comparison of codes pairwise sampled.")
_add("C12", "TLA+ spec Stages: all interleavings of a consumer generated by TLC and replayed in the code",
     _LAWS + "Sequences and consumer schedules are exhaustive up to a length and random beyond.")
_TBL = ("The specification Table (a Tenhou table: wall, hands, calls, riichi, dora, results) is explored exhaustively "
        "by TLC on small decks (MCTable: tile conservation, constant score total, what each step may touch); TLC then "
        "generates whole random records (Gen, plus the real fixtures), which are written as XML and given to the real "
        "code; TLC replays each record on Table and judges every answer. Assurance is up to the generated records. ")
_add("C13", "TLA+ spec Table/Records: records generated by TLC, summaries of the code validated by TLC (RecTrace)", _TBL)
_add("C34", "TLA+ spec Table/Records: records generated by TLC, every answer about every event validated by TLC (RecTrace)", _TBL)
_add("C14 C15", "TLA+ spec Table/Views: exhaustive small tables, generated records, tracked state validated by TLC (TableTrace)", _TBL)
_add("C16", "TLA+ spec Views: generated records cut at random, batched and stepwise states validated by TLC (BatchTrace)", _TBL)
_add("C17 C18 C19", "TLA+ spec Universe over Table: generated records, commands of the code validated by TLC (UniverseTrace)", _TBL)
_add("C20", "TLA+ spec Exec: command sequences enumerated by TLC and commands of generated records, executions validated by TLC",
     _LAWS + "Command sequences over a small alphabet are exhaustive to a small depth (a sample is replayed), random beyond; "
     "the commands of generated records, also with planted contradictions, are executed and judged step by step.")
_add("C21 C22", "TLA+ specs Exec/Universe: tables of generated records and of model command sequences by way of CSV, validated by TLC",
     "Commands and states are compared one by one with what was written, and those read back must still satisfy Universe and "
     "Exec. Texts come from a list of hard ones; assurance is up to that list, the sequences and records generated.")
_add("C23", "TLA+ spec Interleave: schedules generated by TLC, followed in the code, every translation validated by TLC (UniverseTrace)",
     "All schedules of two and three translations up to a length are generated (a sample is followed), longer ones at random.")
_add("C24", "TLA+ spec Persist: update histories generated by TLC, replayed in the code, answers validated by TLC",
     _LAWS + "Histories are exhaustive to a small depth and random beyond.")
_add("C25", "TLA+ spec Table/PaifuTrace: generated records, their paifu documents by the code validated by TLC", _TBL)
_add("C26", "TLA+ specs Table and Shape joined in ReportTrace: generated records, every row of the report validated by TLC", _TBL
     + "What each discard is worth comes from Shape, whose efficient definitions are checked against declarative ones in MCShape.")
_add("C27", "TLA+ spec ReportTrace: generated records, hostile names and links, the rendered report validated by TLC row by row", _TBL)
_add("C28 C29", "TLA+ spec Wall / Shape; recorded draws and experiment outcomes of the code validated by TLC",
     _LAWS + "Walls, choices and experiment outcomes are driven by a recording random source; sampled.")
_add("C31", "TLA+ spec Scopes: enter/leave/build schedules generated by TLC, replayed in the code",
     _LAWS + "Schedules are exhaustive to a small depth and random beyond.")
_add("C32", "TLA+ spec Routing: registries enumerated by TLC and random ones replayed in the code, every translation validated by TLC",
     _LAWS + "All registries of three translations from a small menu are generated (a sample is replayed with several events each), "
     "larger ones with several translators at random.")
_add("C33", "TLA+ spec Session: all runs explored by TLC; recorded runs of the tools validated by TLC (SessionTrace)",
     _LAWS + "The network is a stand-in below the HTTP library; links, answers and records are sampled.")
