"""Deterministic simulation of ConfigParserEnhanced and its companion tools."""
