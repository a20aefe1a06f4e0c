SPECIFICATION MailSpec
INVARIANTS OnlyWhenComplete OnlyWhenAsked OnceAtMost PasswordEncrypted SaysWhatHappened
PROPERTIES AlwaysEnds SentUnlessItFails
CHECK_DEADLOCK FALSE
