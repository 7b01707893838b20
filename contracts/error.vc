@@ drop impl Display@Error -- formatting only
@@ drop impl Error@Error -- empty impl
