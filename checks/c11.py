import ix


def run():
    return ix.run("C11", {"crash": 1.0}, ["decls", "uses", "queries"], crash=True)
