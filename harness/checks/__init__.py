from checks import codec_checks  # noqa: F401
from checks import schema_checks  # noqa: F401
from checks import graph_checks, form_checks  # noqa: F401

from checks import history_checks  # noqa: F401
from checks import thread_checks  # noqa: F401
from checks import docstring_checks, dynamic_checks, heap_checks, import_checks  # noqa: F401
