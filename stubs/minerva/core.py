class Minerva:
    pass
