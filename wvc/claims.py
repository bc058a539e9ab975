"""What is claimed, with the note MANIFEST.json carries, and what is not."""
COMMON = ('Every obligation (pre/postconditions, frames, loop invariants, memory safety of the functions it depends on) is generated from the LLVM IR of the '
          'current source and discharged by z3, without bound on inputs or iterations. Trusted: the VC generator, clang front end, z3, the contracts of libc and OpenSSL '
          'functions in wvc/libc.py. ')
APP = 'Application handlers and filters are assumed not to change the request or the routing table, nor to release their memory. '
CLAIMS = {
    'C23': COMMON + 'MD5 itself is the uninterpreted function EVP_md5 computes; the check proves which bytes it is fed and how its digest is printed.',
    'C24': COMMON,
    'C11': COMMON,
    'C12': COMMON,
    'C13': COMMON,
    'C21': COMMON,
    'C22': COMMON,
    'C03': COMMON + 'Files are assumed not to change while a function runs; file names are compared as text (no symbolic links).',
    'C04': COMMON + 'Interference by other threads is bounded by the rely condition in wvc/monitors.py: outside the table mutex they only add and remove their own connections.',
    'C06': COMMON + APP,
    'C07': COMMON + APP,
    'C08': COMMON + APP,
    'C09': COMMON + 'File names are compared as text (no symbolic links); the static root of the configuration is any string.',
    'C10': COMMON + 'Files are assumed not to change while a function runs.',
    'C18': COMMON + 'The limits file is assumed not to change while it is read.',
    'C19': COMMON + 'Every interleaving is covered by a monitor invariant over ws_mutex: each access to the queue is proved to hold the mutex, and the invariant is proved at every unlock and wait.',
    'C02': COMMON + APP,
    'C01': COMMON + APP + 'The application handlers are assumed to stay inside their own memory.',
    'C05': COMMON + APP + 'Other threads only add and remove their own connections (rely condition in wvc/monitors.py). That every accepted connection reaches accept_request is C19.',
    'C20': COMMON + APP + 'Method and mount point are compared ignoring case, as the code does.',
    'C25': COMMON + 'inet_ntoa gives the text of the address getpeername gave.',
    'C14': COMMON + APP + 'SSL_read and recv deliver the bytes of one stream in order.',
    'C15': COMMON + 'MD5 is the uninterpreted function EVP_md5 computes. File names are compared as text; formatted printing is assumed not to fail (forms under 2 GiB).',
    'C16': COMMON + 'Empty values between commas are skipped, as the documentation of the configuration file says.',
    'C17': COMMON + 'Serializers are assumed to return a heap string that depends on the element only. Values are not escaped: the text is the punctuation around the values as given.',
}
NOT_APPLICABLE = {
    'C26': 'max_seconds is read from the limits file and never used by the code: there is no function to put a contract on that would establish it (recorded as a known gap in DESIGN.md)',
    'C27': 'liveness of the accept loop, the worker threads and the scheduler: contracts here prove partial correctness only',
}
