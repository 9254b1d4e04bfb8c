"""Static analysis of graphix: program model, abstract interpreter and reporting."""
