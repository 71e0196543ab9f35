import ix


def run():
    return ix.run("C10", {"restart": .5, "files": .5}, ["decls", "uses", "queries"])
