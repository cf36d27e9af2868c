"""Which obligations (contracts) and which facets of them decide which property."""

PACKETS = "O_Tag.*|O_Sub.*"
ANY = ".*"

PROPS = {
    "C01": dict(obligations="O_.*", facets="safety|progress"),
    "C02": dict(obligations="O_Reader.*", facets=ANY),
    "C03": dict(obligations="O_Tag02|O_Tag04", facets=ANY),
    "C04": dict(obligations="O_Tag05|O_Tag06|O_Tag07|O_Tag14", facets=ANY),
    "C05": dict(obligations="O_Tag01|O_Tag03|O_Tag09|O_Tag18|O_Tag19|O_Tag20", facets=ANY),
    "C06": dict(obligations="O_Tag08|O_Tag10|O_Tag11|O_Tag12|O_Tag13|O_Tag17|O_TagOther", facets=ANY),
    "C07": dict(obligations="O_Sub.*|O_Tag17", facets=ANY),
    "C08": dict(obligations=PACKETS, facets="err"),
    "C09": dict(obligations=PACKETS, facets=r"(trail|rest)\..*|.*\.struct"),
    "C10": dict(obligations=PACKETS, facets=r".*\.dumppres", relational=True),
    "C11": dict(obligations=PACKETS + "|O_Dump.*", facets=r".*\.dump|dump"),
    "C12": dict(obligations="O_Sub06|O_Sub20|O_Sub24|O_Sub26|O_Sub28|O_Tag11|O_Tag13|O_Text.*", facets=r"(text|fmt)\..*|text"),
    "C13": dict(obligations="O_Parse|O_ParseNil|O_Entry|O_Sub38", facets=ANY),
    "C14": dict(obligations="O_Tag08|O_Entry", facets=ANY),
    "C15": dict(obligations="O_ArmText", facets=ANY),
    "C16": dict(obligations="O_Parse|O_ParseNil|O_ArmText", facets=ANY),
    "C17": dict(obligations="O_Show.*|O_JSON|O_Add", facets=ANY),
    "C18": dict(obligations=PACKETS + "|O_Time.*", facets=r"time\..*|ctx|time"),
    "C19": dict(obligations=PACKETS + "|O_Code.*", facets=r"(code|fmt)\..*|head\.name|mpi\.name|code"),
    "C20": dict(obligations="O_Option.*|O_Command.*", facets="option|err|loop|safety"),
    "C21": dict(obligations="O_HKP.*|O_CommandHKP", facets=ANY),
    "C22": dict(obligations="O_GitHub.*|O_CommandGitHub", facets=ANY),
    "C23": dict(obligations="O_Command.*", facets=ANY),
}

BOUNDED = {}

ASSUME = [
    "sequences, strings and octet slices have fewer than 2^48 elements and loops fewer than 2^48 iterations; machine integers are otherwise bit-precise",
    "memory allocation does not fail; the Go compiler and runtime implement the language",
]

NOT_APPLICABLE = {}
