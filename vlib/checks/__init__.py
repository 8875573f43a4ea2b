REGISTRY = {p: ("keyspace", p.lower()) for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C16")}
REGISTRY.update({p: ("repl", p.lower()) for p in ("C18", "C19")})
REGISTRY.update({p: ("pd", p.lower()) for p in ("C22", "C23")})
REGISTRY.update({p: ("slots", p.lower()) for p in ("C17",)})
REGISTRY.update({p: ("conn", p.lower()) for p in ("C12", "C13", "C14", "C15")})
REGISTRY.update({p: ("lin", p.lower()) for p in ("C09",)})
REGISTRY.update({p: ("expiry", p.lower()) for p in ("C10", "C11")})
REGISTRY.update({p: ("follow", p.lower()) for p in ("C20",)})
REGISTRY.update({p: ("obey", p.lower()) for p in ("C24",)})
REGISTRY.update({p: ("converge", p.lower()) for p in ("C21",)})
REGISTRY.update({p: ("visits", p.lower()) for p in ("C25",)})
