import c03


def run():
    return c03.rpc("C04").finish()
