"""What the code under verification uses of lxml, as declarations only: the contracts in c_parse.py give the meaning (assumed)."""


@dataclass
class _Element:
    text: str | None
    tag: str
    sourceline: int
    nsmap: dict[str, str]

    def findall(self, path: str) -> list["_Element"]: ...

    def find(self, path: str) -> "_Element | None": ...

    def getroottree(self) -> "_ElementTree": ...

    def get(self, key: str) -> str | None: ...

    def __iter__(self) -> list["_Element"]: ...

    def __bool__(self) -> bool: ...


@dataclass
class _ElementTree:
    def getroot(self) -> _Element: ...


class XMLSyntaxError(Exception):
    pass


class DocumentInvalid(Exception):
    pass


@dataclass
class XMLParser:
    encoding: str | None = None
    recover: bool = False


def parse(source: object, parser: XMLParser) -> _ElementTree: ...


def tostring(root: _Element, pretty_print: bool, xml_declaration: bool, encoding: str) -> bytes: ...


def fromstring(text: bytes, parser: XMLParser) -> _Element: ...


@dataclass
class XMLSchema:
    etree: _ElementTree

    def validate(self, etree: _ElementTree) -> bool: ...

    def assertValid(self, etree: _ElementTree) -> None: ...
