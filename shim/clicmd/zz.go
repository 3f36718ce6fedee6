package cmd
