class Broken(Exception):
    """raised by a harness when what the code left behind cannot be what the property says"""
