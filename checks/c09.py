import ix


def run():
    return ix.run("C09", {"edit": .5, "delete": .25, "restart": .25}, ["uses"])
