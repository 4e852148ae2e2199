"""Abstract interpreter and typestate product checker for aioreactive's source."""
