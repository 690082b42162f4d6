KNOWN = [
 ("C30", "mmap_file maps MAP_SHARED whatever the flags: a write through a mapping made without MMAP_SHARED (documented as private, the default), "
         "e.g. mmap_file(f, MMAP_RDWR).mmap()[0] = 'x', reaches the file; not repaired because the repository's own mmaptest opens with MMAP_RDWR|MMAP_CREATE and requires its writes to be in the file"),
 ("C05", "false-positive rate of small xor filters: with an even number of slots per block (32+ceil(1.23n))/3 and fewer than 3000 keys "
         "(e.g. n=13, 32, 130, 208, 286, 598) the slot index and the fingerprint share hash bits, so foreign keys are reported present up to "
         "about 3x (8-bit) or 5x (16-bit) as often as 1/256 or 1/65536; not repaired because it would change the answers of already saved filters"),
]
FIX = [
 (r"gstr_readline left its string", "C23"),
 (r"small hash table never grew", "C02"),
 (r"configuration|config_get", "C42"),
 (r"daemonize", "C43"),
 (r"fletcher", "C26"),
 (r"mmap_file", "C30"),
 (r"\bfts", "C29"),
 (r"error, warn, die|warn, die", "C40"),
 (r"mkgetopt", "C39"),
 (r"readpass", "C36"),
 (r"progressbar", "C37"),
 (r"get_all_if_address|resolve_host|sockaddr_to_string", "C38"),
 (r"freadline", "C34"),
 (r"cdb_find", "C35"),
 (r"getopt", "C32"),
 (r"z_buf", "C33"),
 (r"strmatch", "C31"),
 (r"rotate|mkdirhier|geterror|sys_exception|mmap_file", "C30"),
 (r"\bfts\b|fts_children", "C29"),
 (r"uuid|ulid", "C28"),
 (r"splitmix|xorshift|arc4random", "C27"),
 (r"murmur3|yorrike|siphash24", "C26"),
 (r"parse_ipv4", "C25"),
 (r"base64|hexdump", "C22"),
 (r"gstr_(un)?escape", "C21"),
 (r"gstr_", "C23"),
 (r"strtosize|strtoi<|humanize", "C20"),
 (r"strunquote|dirname|strn?casecmp", "C19"),
 (r"strsplit", "C18"),
 (r"_Hour|_Microsecond|_SEC|__constant_ntohl|_IS_POW2|delimiter set", "C17"),
 (r"job.h|job_manager|job or work manager", "C15"),
 (r"Pack|Unpack|pack\.h", "C16"),
 (r"fast-ht|ht_", "C01"),
 (r"kept its bucket lock|raced with a concurrent|reported failure after inserting when growing|locked the table twice", "C03"),
 (r"hash table iterator|hash_table_remove_if|bucket iterator", "C02"),
 (r"counting bloom filter forgot|scalable bloom filter's ninth", "C04"),
 (r"xor filters of fewer than 18", "C05"),
 (r"marshal replaced the old file|Xorfilter_marshal reported success", "C07"),
 (r"memory pool|mempool_new", "C08"),
 (r"arena", "C09"),
 (r"vector|VECT_", "C10"),
 (r"fast buffers|minheap", "C12"),
 (r"FQ_DYN|MPMC_QUEUE|mpmc queue", "C13"),
 (r"sync queue", "C14"),
 (r"INIT_LIST_HEAD|DL_INSERT", "C11"),
 (r"Xorfilter_unmarshal accepted|leaked its mapping|Bloom_unmarshal trusted", "C06"),
]
