"""What the contracts assume of os.path. Never imported."""


def join(a: str, b: str, c: str) -> str: ...


def dirname(path: str) -> str: ...


def exists(path: str) -> bool: ...
