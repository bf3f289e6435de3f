#![no_std]

