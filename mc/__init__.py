"""Model-checking support library for givenergy-modbus (see DESIGN.md)."""
