"""Which harness decides which property."""
PROPS = {}


def _add(crate, *ids, **kw):
    for i in ids:
        PROPS[i] = dict(crate=crate, **kw)


_add("crypto", "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09")
_add("secrets", "C10", "C11")
_add("reputation", "C12", "C13")
_add("storage", "C14", "C15")
_add("partial", "C16")
_add("futures", "C17")
_add("chain", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28")
_add("consensus", "C29", "C30", "C31", "C32", "C33", "C34", "C35", "C36", "C37", "C38")
_add("rad", "C39", "C40", "C41", "C42", "C43", "C44", "C45", "C46")
_add("net", "C47", "C48", "C49", "C50", "C51", "C52", "C53", "C54")
_add("ledger", "C55", "C56", "C57", "C58")
_add("node", "C59", "C60", "C61", "C62", "C63", "C64", "C65", "C66")
