from ..spec import CONTRACTS
from ..engine import Unsupported
from . import string_utils
from . import log
from . import http_utils
from . import json_utils
from . import router
from . import file_utils
from . import conf_parser
from . import connections
from . import queue
from . import limits
from . import static
from . import body
from . import accept
from . import ws


def callback(ex, fr, st, p, vals, ins):
    """a call through a pointer: the application function is what the contract of the function under proof says"""
    h = ex.top.contract.opts.get('callback')
    if h is None:
        raise Unsupported('indirect call')
    ex.trusted.add('application callback')
    return h(ex, st, p, vals, ins)


CONTRACTS['*callback'] = callback
