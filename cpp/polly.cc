// The installed libclang references Polly's plug-in entry; no analysis uses it.
extern "C" void _Z18getPollyPluginInfov() { __builtin_trap(); }
