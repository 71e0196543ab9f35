import ix


def run():
    return ix.run("C12", {"delete": 1.0}, ["decls", "uses", "queries"])
